"""Abstract interpreter: Python syntax tree -> gated value graph.

Every control-flow join merges the incoming abstract states with gates; loops
are summarised as recurrences over a symbolic iteration index and solved in
closed form (sums, quantifiers, element-wise array definitions, trip counts).
No path is enumerated and nothing of the analysed program is executed.
"""
import ast
import os
from values import *
import alg


class PyDead(Exception):
    """The current statement cannot complete normally."""


class Frame:
    __slots__ = ('fid', 'parent', 'module', 'func', 'globals', 'nonlocals', 'genref')

    def __init__(self, fid, parent, module, func=None):
        self.fid, self.parent, self.module, self.func = fid, parent, module, func
        self.globals, self.nonlocals = set(), set()
        self.genref = None


def owned(v):
    """The input v denotes (a part of), if any."""
    a = v.single() if isinstance(v, R) else None
    while a is not None and a.op == 'idx' and isinstance(a.args[0], R):
        a = a.args[0].single()
    return a if a is not None and a.op == 'sym' else None


class Program:
    def __init__(self, root, overlay=None):
        self.root = root
        self.overlay = overlay or {}     # module -> syntax tree used instead of the file
        self.mods = {}
        self.asts = {}
        self.paths = {}
        for d in ('oneka', 'data', ''):
            p = os.path.join(root, d)
            if not os.path.isdir(p):
                continue
            for dp, dn, fs in os.walk(p):
                if d == '' and dp != p:
                    dn[:] = []
                    continue
                dn[:] = sorted(x for x in dn if not x.startswith('.') and x != '__pycache__')
                for f in sorted(fs):
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(dp, f), root)
                        name = rel[:-3].replace(os.sep, '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        self.paths[name] = os.path.join(root, rel)

    def tree(self, name):
        if name in self.overlay:
            return self.overlay[name]
        if name not in self.asts:
            with open(self.paths[name]) as f:
                self.asts[name] = ast.parse(f.read())
        return self.asts[name]


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog):
        import lib
        self.prog = prog
        self.lib = lib
        self.base = State()
        self.frames = {}
        self.loaded = {}
        self.nfid = 0
        self.nref = 0
        self.nuid = 0
        self.sink = []
        self.logs = []
        self.loopk = []
        self.depth = 0
        self.opaque = {}
        self.ext_override = {}
        self.attr_hook = None
        self.captured = set()
        self.try_depth = 0
        self.opaque_raises = None       # callable(event) -> list of exception values
        self.stats = {'functions': set(), 'calls': 0, 'loops': 0, 'stmts': 0}
        self.recs = []
        self.havocs = {}        # value an unsolved loop leaves -> (record, cell)
        self.allow_alias = False    # go on where a container keeps an object changed later
        self.naming = None      # lists to go by a name: ListV -> R or None
        self.where_stack = []
        self.class_of = {}
        self.readlog = None
        self.weigh = False
        self.module_stub = None         # stands for a module imported by name
        self.memo = None                # results of caching functions, when modelled
        self.views = {}                 # array reference -> (array it is a view of, read, write back)
        self.floats = set()             # arrays made without an element type: of floats
        self.dtypes = {}                # array reference -> element type that converts what is stored
        self.alias = set()              # references whose arrays may share memory
        self.loading = []
        GETITEM[0] = self._getitem_hook
        alg.REBUILD['len'] = lambda a, g: self.length(g[0]) if not isinstance(g[0], R) or g[0].single() is not None else alg.mk_len(g[0])

    # -- modules ------------------------------------------------------------
    def load(self, name):
        if name in self.loaded:
            return self.loaded[name]
        if name not in self.prog.paths:
            return None
        fid = ('mod', name)
        fr = Frame(fid, None, name)
        self.frames[fid] = fr
        self.loaded[name] = ModV(name)
        self.base.frames[fid] = {'__name__': name, '__file__': name}
        old = self.sink
        self.sink = []
        self.loading.append(name)
        try:
            out = self.exec_block(self.prog.tree(name).body, self.base, fr)
            if out.next is not None:
                self.base.become(out.next)
                self.base.pc = ()
        finally:
            self.sink = old
            self.loading.pop()
        return self.loaded[name]

    def load_all(self, names):
        for n in names:
            self.load(n)

    def start(self):
        """A fresh state for an analysis."""
        s = self.base.copy()
        s.trace = []
        s.pc = ()
        return s

    # -- bookkeeping -----------------------------------------------------------
    def new_ref(self, st, obj):
        self.nref += 1
        st.heap[self.nref] = obj
        return Ref(self.nref)

    def uid(self):
        self.nuid += 1
        return self.nuid

    def where(self, node, fr=None):
        m, f = self.where_stack[-1] if self.where_stack else ('?', '?')
        p = os.path.relpath(self.prog.paths[m], self.prog.root) if m in self.prog.paths else m
        return '%s:%s:%s' % (p, getattr(node, 'lineno', 0), f)

    def log_write(self, loc):
        for l in self.logs:
            l.add(loc)

    def set_var(self, st, fid, name, v):
        st.frames[fid][name] = v
        self.log_write(('v', fid, name))

    def hset(self, st, rid, obj):
        st.heap[rid] = obj
        self.log_write(('h', rid))
        if self.views and isinstance(obj, ArrC):
            self.sync_views(st, rid, None)

    def link(self, st, base, v, fwd, bwd):
        """v (array value or reference) is a view of the array behind base."""
        if not (isinstance(base, Ref) and isinstance(st.heap.get(base.id), ArrC)):
            return v
        if isinstance(v, (VecV, Arr)) or isinstance(v, R) and self.lib.rank(v):
            v = self.new_ref(st, ArrC(v))
        if isinstance(v, Ref) and v.id != base.id:
            self.views[v.id] = (base.id, fwd, bwd)
        return v

    def sync_views(self, st, rid, origin):
        """After a store to array rid: write views back, refresh other views."""
        w = self.views.get(rid)
        if w is not None and w[0] != origin and isinstance(st.heap.get(w[0]), ArrC):
            st.heap[w[0]] = ArrC(w[2](self, st, st.heap[w[0]].val, st.heap[rid].val))
            self.log_write(('h', w[0]))
            self.sync_views(st, w[0], rid)
        for vid, (base, fwd, bwd) in list(self.views.items()):
            if base == rid and vid != origin and vid in st.heap and self.in_use(st, vid):
                st.heap[vid] = ArrC(fwd(self, st, st.heap[rid].val))
                self.log_write(('h', vid))
                self.sync_views(st, vid, rid)

    def in_use(self, st, rid):
        def has(v, d=0):
            if isinstance(v, Ref):
                return v.id == rid
            if isinstance(v, Gamma):
                return has(v.a) or has(v.b)
            return d < 3 and isinstance(v, (TupleV, VecV)) and any(has(x, d + 1) for x in v.items)
        return any(has(v) for f in st.frames.values() for v in f.values()) or any(
            isinstance(o, ObjC) and any(has(v) for v in o.fields.values()) or
            isinstance(o, ListC) and any(has(x) for p in o.parts for x in p if not isinstance(x, str))
            for o in st.heap.values())

    def set_field(self, st, rid, name, v):
        o = st.heap[rid].copy()
        o.fields[name] = v
        st.heap[rid] = o
        self.log_write(('f', rid, name))

    def event(self, st, kind, name, args, kwargs, node, result=None):
        e = Event(kind, name, tuple(self.freeze(a, st) for a in args),
                  {k: self.freeze(v, st) for k, v in kwargs.items()}, node, self.where(node),
                  result, self.uid())
        st.trace.append(e)
        return e

    # -- freezing ----------------------------------------------------------------
    def freeze(self, v, st, seen=()):
        """Immutable snapshot: heap lists/arrays become values."""
        if isinstance(v, Ref):
            if v.id in seen:
                return v
            o = st.heap.get(v.id)
            if isinstance(o, ArrC):
                return self.freeze(o.val, st, seen)
            if isinstance(o, ListC):
                seen = seen + (v.id,)
                parts = tuple(self.freeze_part(p, st, seen) for p in o.parts)
                if all(p[0] == 'item' and p[1] is True for p in parts):
                    return TupleV([p[2] for p in parts])
                if len(parts) == 1 and parts[0][0] == 'sym':
                    return parts[0][1]
                return ListV(parts)
            return v
        if isinstance(v, TupleV):
            return TupleV([self.freeze(x, st, seen) for x in v.items])
        if isinstance(v, VecV):
            return VecV([self.freeze(x, st, seen) for x in v.items])
        if isinstance(v, Gamma):
            return ite(v.cond, self.freeze(v.a, st, seen), self.freeze(v.b, st, seen))
        if isinstance(v, Arr):
            return eta(Arr(v.shape, v.ks, self.freeze(v.body, st, seen), v.tag))
        if isinstance(v, ListV):
            return ListV([self.freeze_part(p, st, seen) for p in v.parts])
        if isinstance(v, StrV):
            return StrV([p if isinstance(p, str) else (p[0], self.freeze(p[1], st, seen)) + tuple(p[2:])
                         for p in v.parts])
        return v

    def freeze_part(self, p, st, seen):
        if p[0] == 'item':
            return ('item', p[1], self.freeze(p[2], st, seen))
        if p[0] == 'comp':
            return ('comp', p[1], p[2], p[3], self.freeze(p[4], st, seen))
        return p

    def deref(self, v, st):
        """Array refs to array values; everything else unchanged."""
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ArrC):
                return o.val
        if isinstance(v, Gamma):
            a, b = self.deref(v.a, st), self.deref(v.b, st)
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            if a is v.a and b is v.b:
                return v
            return ite(v.cond, a, b)
        return v

    def wrap(self, v, st):
        if isinstance(v, (VecV,)) or (isinstance(v, Arr) and v.tag != 'seq'):
            return self.new_ref(st, ArrC(v))
        return v

    # -- merging -----------------------------------------------------------------
    def merge_vals(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            if a is UNDEF and b is UNDEF:
                return UNDEF
            return Gamma(c, a, b)
        return ite(c, a, b)

    def merge_obj(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, ObjC) and isinstance(b, ObjC):
            f = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                f[k] = self.merge_vals(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
            return ObjC(a.cls, f)
        if isinstance(a, ListC) and isinstance(b, ListC):
            pa, pb = a.parts, b.parts
            if len(pa) == len(pb) and all(p[0] == 'item' and p[1] is True for p in pa + pb):
                return ListC([('item', True, self.merge_vals(c, p[2], q[2])) for p, q in zip(pa, pb)])
            i = 0
            while i < len(pa) and i < len(pb) and (pa[i] is pb[i] or part_eq(pa[i], pb[i])):
                i += 1
            return ListC(pa[:i] + guard_parts(c, pa[i:]) + guard_parts(b_not(c), pb[i:]))
        if isinstance(a, DictC) and isinstance(b, DictC):
            out = []
            bk = list(b.items)
            for k, v in a.items:
                w = UNDEF
                for i, (k2, v2) in enumerate(bk):
                    if veq(k, k2):
                        w = v2
                        del bk[i]
                        break
                out.append((k, self.merge_vals(c, v, w)))
            for k, v in bk:
                out.append((k, self.merge_vals(c, UNDEF, v)))
            return DictC(out)
        if isinstance(a, ArrC) and isinstance(b, ArrC):
            va, vb = a.val, b.val
            if not (isinstance(va, VecV) and isinstance(vb, VecV)):
                va, vb = self.lib.as_arr(va), self.lib.as_arr(vb)
            return ArrC(eta(ite(c, va, vb)))
        raise Unsupported('merge of different heap objects')

    def merge2(self, c, a, b):
        """State: a if c else b."""
        if a is b:
            return a
        s = State()
        for fid in list(a.frames) + [f for f in b.frames if f not in a.frames]:
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if isinstance(fid, tuple) and fid[0] == 'cls' and isinstance(fid[1], str):
                fa, fb = fa or {}, fb or {}
            if fa is None or fb is None:
                s.frames[fid] = dict(fa if fb is None else fb)
                continue
            d = {}
            for n in list(fa) + [n for n in fb if n not in fa]:
                va, vb = fa.get(n, UNDEF), fb.get(n, UNDEF)
                d[n] = va if va is vb else self.merge_vals(c, va, vb)
            s.frames[fid] = d
        for h in list(a.heap) + [h for h in b.heap if h not in a.heap]:
            oa, ob = a.heap.get(h), b.heap.get(h)
            if oa is None or ob is None:
                s.heap[h] = oa if ob is None else ob
            else:
                s.heap[h] = self.merge_obj(c, oa, ob)
        i = 0
        while i < len(a.trace) and i < len(b.trace) and a.trace[i] is b.trace[i]:
            i += 1
        s.trace = a.trace[:i]
        if a.trace[i:] or b.trace[i:]:
            s.trace.append(IfNode(c, a.trace[i:], b.trace[i:]))
        i = 0
        while i < len(a.pc) and i < len(b.pc) and (a.pc[i] is b.pc[i] or beq_(a.pc[i], b.pc[i])):
            i += 1
        rest = or_simplify([b_and(*a.pc[i:]), b_and(*b.pc[i:])])
        s.pc = a.pc[:i] + (() if rest is True else (rest,))
        return s

    def pc_prefix(self, states):
        p = states[0].pc
        n = len(p)
        for s in states[1:]:
            i = 0
            while i < n and i < len(s.pc) and (s.pc[i] is p[i] or beq_(s.pc[i], p[i])):
                i += 1
            n = i
        return n

    def merge_all(self, pairs):
        """Merge [(state, value)] by their path conditions."""
        if len(pairs) == 1:
            return pairs[0]
        n = self.pc_prefix([s for s, _ in pairs])
        conds = [b_and(*s.pc[n:]) for s, _ in pairs]
        acc, val = pairs[-1]
        neg = []
        simp = []
        for c in conds:
            simp.append(restrict(c, conj_literals(neg)))
            neg.append(b_not(c))
        for i in range(len(pairs) - 2, -1, -1):
            s, v = pairs[i]
            c = simp[i]
            if c is True:
                acc, val = s, v
                continue
            if c is False:
                continue
            val = self.merge_vals(c, v, val)
            acc = self.merge2(c, s, acc)
        return acc, val

    def merge_states(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        return self.merge_all([(s, None) for s in states])[0]

    def assume(self, st, c):
        """st under condition c (in place); False if infeasible."""
        if c is True:
            return True
        if c is False:
            return False
        r = self.settled(restrict(c, conj_literals(st.pc)), st)
        if r is True:
            return True
        if r is False:
            return False
        st.pc = st.pc + (r,)
        return True

    def settled(self, r, st):
        """With self.weigh, conditions are also decided by arithmetic."""
        if not self.weigh or isinstance(r, bool):
            return r
        f = alg.Facts()
        for x in st.pc:
            if isinstance(x, B):
                f._add(x, True)
        t = alg.decide(r, f)
        return r if t is None else t

    def known(self, c, st):
        if isinstance(c, bool):
            return c
        r = self.settled(restrict(c, conj_literals(st.pc)), st)
        if isinstance(r, bool):
            return r
        return None

    # -- names -----------------------------------------------------------------
    def lookup(self, name, st, fr, node):
        f = fr
        if name in fr.globals:
            f = self.frames[('mod', fr.module)]
        while f is not None:
            d = st.frames.get(f.fid)
            if d is None and f.fid[0] == 'mod':
                d = self.base.frames.get(f.fid)
            if d is not None and name in d:
                v = d[name]
                v = undef_free(v)
                if v is UNDEF:
                    raise Unsupported('%s: %s may be unbound' % (self.where(node), name))
                return v
            f = f.parent
        b = self.lib.builtin(name)
        if b is not None:
            return b
        # an undefined global name raises NameError when reached
        self.raise_exc(st, self.make_exc(st, ExtV('builtins.NameError'), [name]))
        raise PyDead()

    def assign_name(self, name, v, st, fr):
        if name in fr.globals:
            self.set_var(st, ('mod', fr.module), name, v)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in st.frames.get(f.fid, {}):
                    self.set_var(st, f.fid, name, v)
                    return
                f = f.parent
        self.set_var(st, fr.fid, name, v)

    # -- exceptions --------------------------------------------------------------
    def make_exc(self, st, cls, args):
        return self.new_ref(st, ObjC(cls, {'args': TupleV(args)}))

    def raise_exc(self, st, exc, cond=True):
        """Record a raise outcome from state st (copied) under cond."""
        s = st.copy()
        if self.assume(s, cond):
            self.sink.append((s, exc))

    def exc_class(self, exc, st):
        if isinstance(exc, Ref) and isinstance(st.heap.get(exc.id), ObjC):
            return st.heap[exc.id].cls
        if isinstance(exc, (ClassV, ExtV)):
            return exc
        return None

    def exc_matches(self, exc, types, st):
        """True/False/None."""
        c = self.exc_class(exc, st)
        if isinstance(types, TupleV):
            rs = [self.exc_matches(exc, t, st) for t in types.items]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        if c is None:
            return None
        if isinstance(c, ClassV) and isinstance(types, (ClassV, ExtV)):
            if c is types or c.is_sub(types):
                return True
            return False
        if isinstance(c, ExtV) and isinstance(types, ExtV):
            return ext_exc_sub(c.path, types.path)
        if isinstance(c, ExtV) and isinstance(types, ClassV):
            return False
        return None

    # -- statements ----------------------------------------------------------------
    def exec_block(self, stmts, st, fr):
        out = Out(st)
        for s in stmts:
            if out.next is None:
                break
            o = self.exec_stmt(s, out.next, fr)
            out.next = o.next
            out.absorb(o)
        return out

    def exec_stmt(self, s, st, fr):
        self.stats['stmts'] += 1
        old, self.sink = self.sink, []
        try:
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('%s: statement %s' % (self.where(s), type(s).__name__))
            try:
                out = m(s, st, fr)
            except PyDead:
                out = Out(None)
            out.raises = self.sink + out.raises
            return out
        finally:
            self.sink = old

    def st_Pass(self, s, st, fr):
        return Out(st)

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return Out(st)
        self.eval(s.value, st, fr)
        return Out(st)

    def st_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return Out(st)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return Out(st)

    def st_AugAssign(self, s, st, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr, t)
            v = self.eval(s.value, st, fr)
            r = self.aug(old, op, v, st, s)
            if r is not old:
                self.assign_name(t.id, r, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            old = self.getattr(o, t.attr, st, t)
            v = self.eval(s.value, st, fr)
            r = self.aug(old, op, v, st, s)
            if r is not old:
                self.setattr(o, t.attr, r, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            old = self.getitem(o, i, st, t)
            v = self.eval(s.value, st, fr)
            r = self.aug(old, op, v, st, s)
            self.setitem(o, i, r, st, t)
        else:
            raise Unsupported('%s: augmented assignment target' % self.where(s))
        return Out(st)

    def aug(self, old, op, v, st, node):
        if isinstance(old, Ref):
            o = st.heap.get(old.id)
            if isinstance(o, ArrC):
                r = self.lib.binop(self, op, o.val, self.deref(v, st), st, node)
                r = self.deref(r, st)
                if self.lib.rank(o.val) is not None and self.lib.rank(r) == self.lib.rank(o.val):
                    if old.id in self.dtypes:
                        import lib2
                        r = lib2.dtype_cast(self, r, self.dtypes[old.id], st)
                    self.hset(st, old.id, ArrC(r))
                    return old
                return self.wrap(r, st)
            if isinstance(o, ListC) and op == 'Add':
                self.hset(st, old.id, ListC(o.parts + tuple(self.seq(v, st))))
                return old
        if isinstance(old, R) and self.lib.rank(old) and owned(old) and not isinstance(node.target, ast.Subscript):
            self.event(st, 'mutate', 'augmented assignment', [old], {}, node)
        return self.wrap(self.deref(self.binop(op, old, v, st, node), st), st)

    def st_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else None
        o = Out(None)
        o.rets.append((st, v))
        return o

    def st_Break(self, s, st, fr):
        o = Out(None)
        o.brks.append(st)
        return o

    def st_Continue(self, s, st, fr):
        o = Out(None)
        o.conts.append(st)
        return o

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            e = st.frames[fr.fid].get('#exc')
            f = fr
            while e is None and f.parent is not None:
                f = f.parent
                e = st.frames[f.fid].get('#exc')
            if e is None:
                raise Unsupported('%s: bare raise' % self.where(s))
        else:
            e = self.eval(s.exc, st, fr)
            if s.cause is not None:
                self.eval(s.cause, st, fr)
            if isinstance(e, (ClassV, ExtV)):
                e = self.call(e, [], {}, st, s)
        o = Out(None)
        o.raises.append((st, e))
        return o

    def st_Assert(self, s, st, fr):
        c = self.eval_bool(s.test, st, fr)
        if self.known(c, st) is True:
            return Out(st)
        bad = st.copy()
        o = Out(None)
        if self.assume(bad, b_not(c)):
            e = self.make_exc(bad, ExtV('builtins.AssertionError'), [])
            bad_state = bad
            o.raises.append((bad_state, e))
        if self.assume(st, c):
            o.next = st
        return o

    def st_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return Out(st)

    def st_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return Out(st)

    def st_Import(self, s, st, fr):
        for a in s.names:
            m = self.import_mod(a.name)
            if a.asname:
                self.assign_name(a.asname, m, st, fr)
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.import_mod(top), st, fr)
        return Out(st)

    def import_mod(self, name):
        if name in self.prog.paths:
            self.load(name)
            return ModV(name)
        if any(p.startswith(name + '.') for p in self.prog.paths):
            return ModV(name)
        return ExtV(self.lib.canon(name))

    def st_ImportFrom(self, s, st, fr):
        base = s.module or ''
        if s.level:
            pk = fr.module.split('.')
            if not self.prog.paths.get(fr.module, '').endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            base = '.'.join(pk + ([s.module] if s.module else []))
        for a in s.names:
            full = base + '.' + a.name
            if a.name == '*':
                m = self.import_mod(base)
                if isinstance(m, ModV):
                    for n, v in list(self.base.frames[('mod', base)].items()):
                        if not n.startswith('_'):
                            self.assign_name(n, v, st, fr)
                    continue
                raise Unsupported('star import')
            if full in self.prog.paths:
                v = self.import_mod(full)
            elif base in self.prog.paths:
                self.load(base)
                d = self.base.frames[('mod', base)]
                if a.name not in d:
                    raise Unsupported('%s: cannot import %s from %s' % (self.where(s), a.name, base))
                v = d[a.name]
            else:
                v = self.lib.ext(self.lib.canon(full))
            self.assign_name(a.asname or a.name, v, st, fr)
        return Out(st)

    def st_FunctionDef(self, s, st, fr, cls=None):
        f = self.make_func(s, st, fr, cls)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, fr)
            v = self.decorate(dv, v, st, s)
        self.assign_name(s.name, v, st, fr)
        return Out(st)

    def decorate(self, dv, f, st, node):
        if isinstance(dv, ExtV):
            p = dv.path
            if p == 'builtins.staticmethod':
                g = clone_func(f)
                g.kind = 'static'
                return g
            if p == 'builtins.classmethod':
                g = clone_func(f)
                g.kind = 'class'
                return g
            if p in ('builtins.property', 'functools.cached_property'):
                return PropV(memo(f) if p != 'builtins.property' else f)
            if p in ('functools.lru_cache', 'functools.cache'):
                return memo(f)
            if p in ('numba.jit', 'numba.njit', 'abc.abstractmethod',
                     'functools.wraps', 'typing.overload', 'typing.final', 'builtins.profile'):
                return f
        if isinstance(dv, BoundV) and isinstance(dv.self_, PropV):
            p = dv.self_
            if dv.func.path == 'method:setter':
                return PropV(p.fget, f)
            if dv.func.path in ('method:getter', 'method:deleter'):
                return PropV(f, p.fset)
        if isinstance(dv, PartialV) and isinstance(dv.f, ExtV) and dv.f.path.startswith('functools.'):
            return f
        return self.call(dv, [f], {}, st, node)

    def make_func(self, s, st, fr, cls=None):
        name = getattr(s, 'name', '<lambda>')
        if cls is not None:
            q = cls.qual + '.' + name
        elif fr.func is not None:
            q = fr.func.qual + '.' + name
        else:
            q = fr.module + '.' + name
        f = FuncV(s, fr.module, fr.fid, name, q, cls)
        f.defaults = [self.eval(d, st, fr) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, st, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
                        if d is not None}
        g = fr
        while g is not None:
            self.captured.add(g.fid)
            g = g.parent
        return f

    def st_ClassDef(self, s, st, fr):
        bases = [self.eval(b, st, fr) for b in s.bases]
        c = ClassV(s, fr.module, s.name, fr.module + '.' + s.name, bases)
        self.nfid += 1
        fid = c.fid = ('cls', self.nfid)
        cf = Frame(fid, fr, fr.module, None)
        self.frames[fid] = cf
        st.frames[fid] = {}
        out = Out(st)
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                # functions close over the enclosing (not the class) frame
                f = self.make_func(b, st, cf, c)
                f.fid = fr.fid
                v = f
                for d in reversed(b.decorator_list):
                    v = self.decorate(self.eval(d, st, cf), v, st, b)
                st.frames[fid][b.name] = v
            else:
                o = self.exec_stmt(b, st, cf)
                if o.next is None:
                    raise Unsupported('class body')
                st = o.next
        c.members = dict(st.frames[fid])
        for d in s.decorator_list:
            dv = self.eval(d, st, fr)
            p = dv.path if isinstance(dv, ExtV) else dv.f.path if isinstance(dv, PartialV) and isinstance(dv.f, ExtV) else ''
            if p == 'dataclasses.dataclass':
                c.members['#dataclass'] = [(b.target.id, b.value is not None) for b in s.body
                                           if isinstance(b, ast.AnnAssign)]
        self.assign_name(s.name, c, st, fr)
        out.next = st
        return out

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.assign_name(t.id, UNDEF, st, fr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                i = self.eval_index(t.slice, st, fr)
                self.lib.delitem(self, o, i, st, t)
            else:
                raise Unsupported('del')
        return Out(st)

    def st_If(self, s, st, fr):
        c = self.eval_bool(s.test, st, fr)
        k = self.known(c, st)
        if k is not None:
            return self.exec_block(s.body if k else s.orelse, st, fr)
        return self.fork(c, st, lambda x: self.exec_block(s.body, x, fr),
                         lambda x: self.exec_block(s.orelse, x, fr))

    def fork(self, c, st, fa, fb):
        """Run fa under c and fb under not c, merging the normal outcomes."""
        sa, sb = st.copy(), st
        pc0 = st.pc
        out = Out(None)
        na = nb = None
        if self.assume(sa, c):
            oa = fa(sa)
            out.absorb(oa)
            na = oa.next
        if self.assume(sb, b_not(c)):
            ob = fb(sb)
            out.absorb(ob)
            nb = ob.next
        if na is not None and nb is not None:
            out.next = self.merge2(c, na, nb)
        else:
            out.next = na if na is not None else nb
        return out

    def fork_value(self, c, st, fa, fb):
        """Like fork, for expressions: fa/fb return values; st is updated."""
        k = self.known(c, st)
        if k is not None:
            return fa(st) if k else fb(st)
        sa, sb = st.copy(), st.copy()
        va = vb = None
        da = db = True
        if self.assume(sa, c):
            try:
                va = fa(sa)
                da = False
            except PyDead:
                pass
        if self.assume(sb, b_not(c)):
            try:
                vb = fb(sb)
                db = False
            except PyDead:
                pass
        if da and db:
            raise PyDead()
        if da:
            st.become(sb)
            return vb
        if db:
            st.become(sa)
            return va
        m = self.merge2(c, sa, sb)
        st.become(m)
        return self.merge_vals(c, va, vb)

    def st_With(self, s, st, fr):
        mgrs = []
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            mgrs.append((v, it))
            if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjC):
                en = self.getattr(v, '__enter__', st, s)
                ev = self.call(en, [], {}, st, s)
            else:
                ev = v
                self.event(st, 'enter', 'with', [v], {}, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ev, st, fr)
        out = self.exec_block(s.body, st, fr)
        if out.next is not None:
            for v, it in reversed(mgrs):
                if isinstance(v, Ref) and isinstance(out.next.heap.get(v.id), ObjC):
                    ex = self.getattr(v, '__exit__', out.next, s)
                    self.call(ex, [None, None, None], {}, out.next, s)
                else:
                    self.event(out.next, 'exit', 'with', [v], {}, s)
        return out

    def st_Try(self, s, st, fr):
        self.try_depth += 1
        try:
            out = self.exec_block(s.body, st, fr)
        finally:
            self.try_depth -= 1
        if out.next is not None and s.orelse:
            o = self.exec_block(s.orelse, out.next, fr)
            raises = out.raises
            out.next = o.next
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            late = o.raises
        else:
            raises = out.raises
            late = []
        out.raises = list(late)
        pending = raises
        for h in s.handlers:
            if not pending:
                break
            here, rest = [], []
            for rs, exc in pending:
                if h.type is None:
                    m = True
                else:
                    types = self.eval(h.type, rs, fr)
                    m = self.exc_matches(exc, types, rs)
                if m is None:
                    raise Unsupported('%s: cannot tell whether handler matches' % self.where(h))
                (here if m else rest).append((rs, exc))
            pending = rest
            if not here:
                continue
            hs, exc = self.merge_all(here)
            olde = hs.frames[fr.fid].get('#exc')
            self.set_var(hs, fr.fid, '#exc', exc)
            if h.name:
                self.assign_name(h.name, exc, hs, fr)
            o = self.exec_block(h.body, hs, fr)
            for x in [o.next] + [r[0] for r in o.rets] + o.brks + o.conts:
                if x is not None:
                    x.frames[fr.fid]['#exc'] = olde
            out.absorb(o)
            if o.next is not None:
                out.next = o.next if out.next is None else self.merge_states([out.next, o.next])
        out.raises += pending
        if s.finalbody:
            res = Out(None)

            def fin(x, put):
                o = self.exec_block(s.finalbody, x, fr)
                res.absorb(o)
                if o.next is not None:
                    put(o.next)
            groups = []
            if out.next is not None:
                fin(out.next, lambda y: setattr(res, 'next', y))
            if out.rets:
                rs, rv = self.merge_all(out.rets)
                fin(rs, lambda y: res.rets.append((y, rv)))
            for b in out.brks:
                fin(b, lambda y: res.brks.append(y))
            for b in out.conts:
                fin(b, lambda y: res.conts.append(y))
            for b, e in out.raises:
                fin(b, lambda y, e=e: res.raises.append((y, e)))
            return res
        return out

    # -- loops -------------------------------------------------------------------
    def rows_of(self, e, st, fr):
        """Iteration that binds rows (views) of changeable arrays:
        (number of rows, row index -> value), or None."""
        def plain(n):
            try:
                return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == n and not e.keywords \
                    and not any(isinstance(a, ast.Starred) for a in e.args) \
                    and self.lookup(n, st, fr, e) == self.lib.builtin(n)
            except Unsupported:
                return False
        if plain('enumerate') and len(e.args) == 1:
            r = self.rows_of(e.args[0], st, fr)
            return r and (r[0], lambda k, x: TupleV([k, r[1](k, x)]))
        if plain('zip') and e.args:
            rs = []
            for a in e.args:
                r = self.rows_of(a, st, fr)
                if r is None:
                    return None
                rs.append(r)
            n = rs[0][0]
            for r in rs[1:]:
                n = n if r_eq(n, r[0]) else mk_min(n, r[0])
            return n, lambda k, x: TupleV([r[1](k, x) for r in rs])
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return None
        y = st.copy()
        v = self.eval(e, y, fr)
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if not isinstance(o, ArrC) or self.lib.rank(o.val) != 2:
            return None
        n = self.length(o.val, st)
        if not isinstance(n, R) or n.is_const():
            return None
        return n, lambda k, x: self.getitem(v, k, x, e)

    def st_For(self, s, st, fr):
        rows = self.rows_of(s.iter, st, fr)
        if rows is not None:
            k = fresh_atom('k', integer=True, nonneg=True)
            parts = [('comp', rows[0], k, True, ListV([('item', True, R.atom(k))]))]
        elif isinstance(s.iter, ast.Call) and not s.iter.keywords and len(s.iter.args) < 3 and getattr(
                self.eval(s.iter.func, st, fr), 'path', None) == 'itertools.count':
            k = fresh_atom('k', integer=True, nonneg=True)
            a = [self.eval(x, st, fr) for x in s.iter.args] + [R.const(0), R.const(1)][len(s.iter.args):]
            parts = [('comp', alg.INF(), k, True, ListV([('item', True, as_r(a[0]) + as_r(a[1]) * R.atom(k))]))]
        else:
            parts = self.seq(self.eval(s.iter, st, fr), st, s)

        def body(x, v):
            if rows is not None:
                v = rows[1](v, x)
            self.assign(s.target, v, x, fr)
            return self.exec_block(s.body, x, fr)
        return self.loop_tail(self.run_parts(parts, body, st, s), s, fr)

    def loop_tail(self, out, s, fr):
        """Breaks leave the loop; `else` runs on normal exhaustion."""
        brks, out.brks = out.brks, []
        if s.orelse and out.next is not None:
            o = self.exec_block(s.orelse, out.next, fr)
            out.next = o.next
            out.absorb(o)
        sts = ([out.next] if out.next is not None else []) + brks
        if brks:
            # first the exits, then normal completion (its condition is the rest)
            sts = brks + ([out.next] if out.next is not None else [])
        out.next = self.merge_states(sts)
        return out

    def run_parts(self, parts, body, st, node):
        """body(state, value) -> Out for each element, in order."""
        out = Out(st)
        for p in parts:
            if out.next is None:
                break
            if p[0] == 'item':
                if p[1] is True:
                    o = body(out.next, p[2])
                else:
                    o = self.fork(p[1], out.next, lambda x: body(x, p[2]), lambda x: Out(x))
                nxt = self.merge_states([o.next] + o.conts)
                o.conts = []
                out.next = nxt
                out.absorb(o)
                continue
            if p[0] == 'sym':
                a = p[1]
                k = fresh_atom('k', integer=True, nonneg=True)
                p = ('comp', self.length(a), k, True,
                     ListV([('item', True, self.elem(a, R.atom(k)))]))
            _, n, k, cond, inner = p
            inner_parts = inner.parts if isinstance(inner, ListV) else [
                ('item', True, x) for x in inner.items] if isinstance(inner, TupleV) else self.seq(inner, st)
            k2 = fresh_atom('k', integer=True, nonneg=True)
            sb = {k.id: R.atom(k2)}
            inner_parts = subst(ListV(inner_parts), sb).parts
            cond = subst(cond, sb) if isinstance(cond, B) else cond

            def one(x):
                def go(y):
                    return self.run_parts(inner_parts, body, y, node)
                if cond is True:
                    return go(x)
                return self.fork(cond, x, go, lambda y: Out(y))
            if isinstance(n, R) and n.is_const() and n.value() <= 12:
                for j in range(int(n.value())):
                    if out.next is None:
                        break
                    sub = {k2.id: R.const(j)}
                    ip = subst(ListV(inner_parts), sub).parts
                    cj = subst(cond, sub) if isinstance(cond, B) else cond

                    def onej(x):
                        if cj is True:
                            return self.run_parts(ip, body, x, node)
                        return self.fork(cj, x, lambda y: self.run_parts(ip, body, y, node), lambda y: Out(y))
                    o = onej(out.next)
                    o.next = self.merge_states([o.next] + o.conts)
                    o.conts = []
                    out.next = o.next
                    out.absorb(o)
                continue
            o = self.sym_loop(n, k2, one, out.next, node)
            out.next = o.next
            out.absorb(o)
        return out

    def st_While(self, s, st, fr):
        k = fresh_atom('k', integer=True, nonneg=True)
        marker = object()

        def one(x):
            old, self.sink = self.sink, []
            try:
                c = self.eval_bool(s.test, x, fr)
                o = Out(None)
                o.raises += self.sink
            finally:
                self.sink = old
            kn = self.known(c, x)
            if kn is True:
                b = self.exec_block(s.body, x, fr)
            elif kn is False:
                b = Out(None)
                b.rets.append((x, marker))
            else:
                y = x.copy()
                self.assume(y, b_not(c))
                self.assume(x, c)
                b = self.exec_block(s.body, x, fr)
                b.rets.insert(0, (y, marker))
            b.raises = o.raises + b.raises
            return b
        # a loop whose condition is decided with no symbolic state: unroll
        o = self.try_unroll(s, st, fr)
        if o is not None:
            return o
        out = self.sym_loop(None, k, one, st, s)
        ends = [x for x, v in out.rets if v is marker]
        out.rets = [(x, v) for x, v in out.rets if v is not marker]
        nxt = self.merge_states(ends)
        out.next = nxt
        return self.loop_tail(out, s, fr)

    def try_unroll(self, s, st, fr):
        probe = st.copy()
        old, self.sink = self.sink, []
        try:
            try:
                c = self.eval_bool(s.test, probe, fr)
            except PyDead:
                return None
        finally:
            self.sink = old
        if self.known(c, probe) is False:
            return None
        if not isinstance(s.test, ast.Constant) and (c is True or alg.SIZES):
            out = Out(st)
            brks = []
            undecided = 0
            for _ in range(60):
                if out.next is None:
                    break
                c = self.eval_bool(s.test, out.next, fr)
                kn = self.known(c, out.next)
                if kn is False:
                    break
                if kn is None:
                    undecided += 1
                    if not alg.SIZES or undecided > 5:
                        return None
                    y = out.next.copy()
                    if self.assume(y, b_not(c)):
                        brks.append(y)
                    if not self.assume(out.next, c):
                        out.next = None
                        break
                o = self.exec_block(s.body, out.next.copy(), fr)
                out.next = self.merge_states([o.next] + o.conts)
                o.conts = []
                brks += o.brks
                o.brks = []
                out.absorb(o)
            else:
                return None
            out.next = self.merge_states(brks + [out.next])
            return out
        return None

    # the summariser is in loops.py
    def sym_loop(self, n, k, body, st, node):
        import loops
        if isinstance(n, R) and n.single() is alg.INF().single():
            n = None
        return loops.summarise(self, n, k, body, st, node)

    # -- assignment targets -----------------------------------------------------
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                post = len(t.elts) - i - 1
                parts = self.seq(v, st)
                if not all(p[0] == 'item' and p[1] is True for p in parts):
                    if i and not post and all(not isinstance(e, ast.Starred) for e in t.elts[:i]):
                        for j in range(i):
                            self.assign(t.elts[j], self.getitem(v, R.const(j), st, t), st, fr)
                        self.assign(t.elts[i].value, self.getitem(v, SliceV(R.const(i), None, None), st, t), st, fr)
                        return
                    raise Unsupported('%s: starred unpacking' % self.where(t))
                vals = [p[2] for p in parts]
                for e, x in zip(t.elts[:i], vals):
                    self.assign(e, x, st, fr)
                self.assign(t.elts[i].value, self.new_ref(st, ListC([('item', True, x) for x in
                                                                    vals[i:len(vals) - post]])), st, fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - post:] if post else []):
                    self.assign(e, x, st, fr)
                return
            vals = self.unpack(v, len(t.elts), st, t)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            self.setitem(o, i, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported('%s: assignment target' % self.where(t))

    def unpack(self, v, n, st, node):
        v0 = self.deref(v, st)
        if isinstance(v0, Gamma):
            a = self.unpack(v0.a, n, st, node)
            b = self.unpack(v0.b, n, st, node)
            return [self.merge_vals(v0.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v0, R):
            return [self.elem(v0, R.const(i)) for i in range(n)]
        if isinstance(v0, Arr):
            return [self.wrap(self.elem(v0, R.const(i)), st) for i in range(n)]
        parts = self.seq(v0, st)
        if all(p[0] == 'item' and p[1] is True for p in parts):
            if len(parts) != n:
                raise Unsupported('%s: unpacking %d values into %d' % (self.where(node), len(parts), n))
            return [p[2] for p in parts]
        lst = ListV(parts)
        return [self.elem(lst, R.const(i)) for i in range(n)]

    # -- expressions -----------------------------------------------------------
    def eval(self, e, st, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('%s: expression %s' % (self.where(e), type(e).__name__))
        return m(e, st, fr)

    def eval_bool(self, e, st, fr):
        return self.truth(self.eval(e, st, fr), st, e)

    def truth(self, v, st, node=None):
        v = self.deref(v, st)
        if isinstance(v, (bool, B)):
            return v
        if v is None:
            return False
        if isinstance(v, str):
            return v != ''
        if isinstance(v, StrV):
            return True
        if isinstance(v, R):
            if v.is_const():
                return v.value() != 0
            a = v.single()
            if a is not None:
                if a.boolean:
                    return b_atom(v)
                if a.op == 'ite':
                    return b_or(b_and(a.args[0], self.truth(a.args[1], st)),
                                b_and(b_not(a.args[0]), self.truth(a.args[2], st)))
                if a.ndim is not None and a.ndim > 0 or a.op == 'sym' and (a.meta == 'seq' or isinstance(a.meta, dict)):
                    return mk_cmp(self.length(v), '>')
            return b_not(mk_cmp(v, '=='))
        if isinstance(v, (TupleV, ListV)) or (isinstance(v, Ref) and isinstance(st.heap.get(v.id), (ListC, DictC))):
            n = self.length(v, st)
            return mk_cmp(n, '>')
        if isinstance(v, VecV):
            if len(v.items) == 1:
                return self.truth(v.items[0], st)
            raise Unsupported('truth value of an array')
        if isinstance(v, Gamma):
            return b_or(b_and(v.cond, self.truth(v.a, st)), b_and(b_not(v.cond), self.truth(v.b, st)))
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjC):
            return True
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, ExtV, OpaqueF, ExtObj)):
            return True
        raise Unsupported('truth value of %s' % type(v).__name__)

    def ex_Constant(self, e, st, fr):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, float)):
            return num_const(v)
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, bytes):
            return 'bytes:' + repr(v)
        raise Unsupported('constant %r' % (v,))

    def ex_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def ex_Attribute(self, e, st, fr):
        return self.getattr(self.eval(e.value, st, fr), e.attr, st, e)

    def ex_Tuple(self, e, st, fr):
        return TupleV(self.eval_elts(e.elts, st, fr))

    def eval_elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                parts = self.seq(v, st)
                if all(p[0] == 'item' and p[1] is True for p in parts):
                    out.extend(p[2] for p in parts)
                else:
                    out.append(StarSeq(v))
            else:
                out.append(self.eval(x, st, fr))
        return out

    def ex_List(self, e, st, fr):
        parts = []
        for x in self.eval_elts(e.elts, st, fr):
            if isinstance(x, StarSeq):
                parts.extend(self.seq(x.v, st))
            else:
                parts.append(('item', True, x))
        return self.new_ref(st, ListC(parts))

    def ex_Set(self, e, st, fr):
        return self.new_ref(st, ListC([('item', True, x) for x in self.eval_elts(e.elts, st, fr)]))

    def ex_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st, fr)
                o = st.heap.get(d.id) if isinstance(d, Ref) else None
                if not isinstance(o, DictC):
                    raise Unsupported('%s: dict unpacking' % self.where(e))
                for kk, vv in o.items:
                    items = [(a, b) for a, b in items if not veq(a, kk)] + [(kk, vv)]
                continue
            kk, vv = self.eval(k, st, fr), self.eval(v, st, fr)
            items = [(a, b) for a, b in items if not veq(a, kk)] + [(kk, vv)]
        return self.new_ref(st, DictC(items))

    def ex_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, st, fr)
                spec = ''
                if x.format_spec is not None:
                    spec = self.ex_JoinedStr(x.format_spec, st, fr)
                conv = chr(x.conversion) if x.conversion and x.conversion > 0 else ''
                parts.extend(self.lib.fmt_parts(self, v, spec, conv, st))
        return self.lib.mkstr(parts)

    def ex_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def ex_IfExp(self, e, st, fr):
        c = self.eval_bool(e.test, st, fr)
        return self.fork_value(c, st, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr))

    def ex_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        f = fr
        self.assign_name(e.target.id, v, st, f)
        return v

    def ex_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.eval(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, s, e)
            isb = isinstance(v, (bool, B)) or (isinstance(v, R) and v.single() is not None and v.single().boolean)
            kn = self.known(t, s)
            if kn is not None:
                if kn is is_and:
                    return go(i + 1, s)
                return t if isb else v
            if isb:
                v = t
            if is_and:
                r = self.fork_value(t, s, lambda x: go(i + 1, x), lambda x: False if isb else v)
            else:
                r = self.fork_value(t, s, lambda x: True if isb else v, lambda x: go(i + 1, x))
            return r
        return go(0, st)

    def ex_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v, st, e))
        d = self.deref(v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            if isinstance(d, (bool, B)):
                d = as_r(d)
            return self.wrap(self.lib.lift(lambda a: -as_r(a), d), st)
        if isinstance(e.op, ast.Invert):
            return self.wrap(self.lib.lift(lambda a: b_not(self.truth(a, st)) if self.lib.is_boolish(a) else -as_r(a) - R.const(1), d), st)
        raise Unsupported('unary operator')

    def ex_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        r = self.lib.binop(self, op, self.deref(a, st), self.deref(b, st), st, node)
        return self.wrap(r, st)

    def ex_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st, fr)
            r = self.lib.compare(self, type(op).__name__, left, right, st, e)
            if res is True:
                res = r
            else:
                r0 = self.deref(r, st)
                res = b_and(self.truth(res, st), self.truth(r0, st))
            left = right
        return self.wrap(res, st) if not isinstance(res, (bool, B)) else res

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.deref(self.eval(x, st, fr), st) if x is not None else None
                            for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return TupleV([self.eval_index(x, st, fr) for x in s.elts])
        return self.eval(s, st, fr)

    def ex_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        i = self.eval_index(e.slice, st, fr)
        return self.getitem(o, i, st, e)

    def ex_Starred(self, e, st, fr):
        raise Unsupported('starred expression')

    def comp_run(self, gens, st, fr, emit):
        """Run comprehension generators, emit(state, frame) per element."""
        self.nfid += 1
        fid = ('comp', self.nfid)
        cf = Frame(fid, fr, fr.module, fr.func)
        self.frames[fid] = cf
        st.frames[fid] = {}

        def level(i, s):
            if i == len(gens):
                old, self.sink = self.sink, []
                try:
                    try:
                        emit(s, cf)
                        o = Out(s)
                    except PyDead:
                        o = Out(None)
                    o.raises += self.sink
                finally:
                    self.sink = old
                return o
            g = gens[i]
            old, self.sink = self.sink, []
            try:
                it = self.eval(g.iter, s, cf if i else fr)
                pre = self.sink
            finally:
                self.sink = old

            def body(x, v):
                self.assign(g.target, v, x, cf)

                def conds(j, y):
                    if j == len(g.ifs):
                        return level(i + 1, y)
                    c = self.eval_bool(g.ifs[j], y, cf)
                    kn = self.known(c, y)
                    if kn is not None:
                        return conds(j + 1, y) if kn else Out(y)
                    return self.fork(c, y, lambda z: conds(j + 1, z), lambda z: Out(z))
                return conds(0, x)
            o = self.run_parts(self.seq(it, s, g.iter), body, s, g.iter)
            o.raises = pre + o.raises
            return o
        out = level(0, st)
        self.sink.extend(out.raises)
        if out.next is None:
            raise PyDead()
        st.become(out.next)

    def ex_ListComp(self, e, st, fr):
        ref = self.new_ref(st, ListC([]))

        def emit(s, cf):
            v = self.eval(e.elt, s, cf)
            self.hset(s, ref.id, ListC(s.heap[ref.id].parts + (('item', True, v),)))
        self.comp_run(e.generators, st, fr, emit)
        return ref

    ex_GeneratorExp = ex_ListComp
    ex_SetComp = ex_ListComp

    def ex_DictComp(self, e, st, fr):
        ref = self.new_ref(st, DictC([]))

        def emit(s, cf):
            k = self.eval(e.key, s, cf)
            v = self.eval(e.value, s, cf)
            self.lib.dict_set(self, ref, k, v, s)
        self.comp_run(e.generators, st, fr, emit)
        return ref

    def ex_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else None
        f = fr
        while f is not None and f.genref is None:
            f = f.parent
        if f is None:
            raise Unsupported('yield')
        self.hset(st, f.genref.id, ListC(st.heap[f.genref.id].parts + (('item', True, v),)))
        return None

    def ex_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        f = fr
        self.hset(st, f.genref.id, ListC(st.heap[f.genref.id].parts + tuple(self.seq(v, st))))
        return None

    def ex_Call(self, e, st, fr):
        f = self.eval(e.func, st, fr)
        if isinstance(f, ExtV) and f.path == 'builtins.locals' and not e.args and not e.keywords and fr.fid[0] != 'mod':
            d = st.frames.get(fr.fid, {})
            if not any(has_undef(v) for v in d.values()):
                return self.new_ref(st, DictC([(k, v) for k, v in d.items()]))
        raw = [(isinstance(x, ast.Starred), self.eval(x.value if isinstance(x, ast.Starred) else x, st, fr)) for x in e.args]
        kws = [(kw.arg, self.eval(kw.value, st, fr)) for kw in e.keywords]
        return self.call_raw(f, raw, kws, st, e)

    def call_raw(self, f, raw, kws, st, e):
        """A call whose starred arguments may differ in length between cases."""
        args = []
        for star, v in raw:
            if not star:
                args.append(v)
                continue
            parts = self.seq(v, st)
            if all(p[0] == 'item' and p[1] is True for p in parts):
                args.extend(p[2] for p in parts)
            elif isinstance(self.deref(v, st), Gamma):
                return self.call_cases(self.deref(v, st), v, f, raw, kws, st, e)
            else:
                args.append(StarSeq(v))
        kwargs = {}
        for k, v in kws:
            if k is not None:
                kwargs[k] = v
                continue
            if isinstance(v, Gamma):
                return self.call_cases(v, v, f, raw, kws, st, e)
            o = st.heap.get(v.id) if isinstance(v, Ref) else None
            if not isinstance(o, DictC):
                raise Unsupported('%s: ** of unknown mapping' % self.where(e))
            for k, x in o.items:
                kwargs[k] = x
        return self.call(f, args, kwargs, st, e)

    def call_cases(self, g, old, f, raw, kws, st, e):
        def case(side):
            def pick(v):
                if v is old:
                    return getattr(g, side)
                while isinstance(v, Gamma) and v.cond == g.cond:
                    v = getattr(v, side)
                return v
            return lambda s: self.call_raw(pick(f), [(b, pick(v)) for b, v in raw], [(k, pick(v)) for k, v in kws], s, e)
        return self.fork_value(g.cond, st, case('a'), case('b'))

    # -- calls ---------------------------------------------------------------
    def call(self, f, args, kwargs, st, node):
        self.stats['calls'] += 1
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV):
                if f.func.kind == 'static':
                    return self.call_func(f.func, args, kwargs, st, node)
                return self.call_func(f.func, [f.self_] + list(args), kwargs, st, node)
            if isinstance(f.func, ExtV):
                return self.lib.method(self, f.self_, f.func.path.split(':', 1)[1], args, kwargs, st, node)
            return self.call(f.func, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, ExtV):
            if f.path in ('builtins.staticmethod', 'builtins.classmethod') and len(args) == 1 and isinstance(args[0], FuncV):
                return self.decorate(f, args[0], st, node)
            if f.path == 'builtins.property' and args and all(isinstance(x, FuncV) for x in args) and not kwargs:
                return PropV(*args[:2])
            h = self.ext_override.get(f.path)
            if h is not None:
                return h(self, st, args, kwargs, node)
            return self.lib.call_ext(self, f.path, args, kwargs, st, node)
        if isinstance(f, OpaqueF):
            return f.handler(self, st, args, kwargs, node)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, st, node)
        if isinstance(f, Gamma):
            return self.fork_value(f.cond, st, lambda s: self.call(f.a, args, kwargs, s, node),
                                   lambda s: self.call(f.b, args, kwargs, s, node))
        if isinstance(f, ExtObj):
            return self.lib.call_ext(self, f.path + '()', args, kwargs, st, node)
        if isinstance(f, R) and f.single() is not None:
            a = f.single()
            fz = [self.freeze(x, st) for x in args]
            r = R.atom(get_app('callv', tuple([f] + fz))[0])
            self.event(st, 'callv', show(f), args, kwargs, node, r)
            return r
        if isinstance(f, Ref) and isinstance(st.heap.get(f.id), ObjC):
            m = self.getattr(f, '__call__', st, node)
            return self.call(m, args, kwargs, st, node)
        if f is None or f is UNDEF:
            raise Unsupported('%s: call of %r' % (self.where(node), f))
        raise Unsupported('%s: call of %s' % (self.where(node), type(f).__name__))

    def bind(self, f, args, kwargs, st, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        rest = []
        if any(isinstance(x, StarSeq) for x in args):
            new = []
            for x in args:
                if isinstance(x, StarSeq):
                    new.extend(self.unpack(x.v, len(pos) - len(new), st, node))
                else:
                    new.append(x)
            args = new
        for i, v in enumerate(args):
            if i < len(pos):
                d[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            return self.bad_call(f, st, node, 'too many positional arguments')
        if a.vararg:
            d[a.vararg.arg] = TupleV(rest)
        extra = []
        for k, v in kwargs.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    return self.bad_call(f, st, node, 'duplicate argument ' + k)
                d[k] = v
            else:
                extra.append((k, v))
        if extra and not a.kwarg:
            return self.bad_call(f, st, node, 'unexpected keyword ' + extra[0][0])
        if a.kwarg:
            d[a.kwarg.arg] = self.new_ref(st, DictC(extra))
        nd = len(f.defaults)
        for p, v in zip(pos[len(pos) - nd:] if nd else [], f.defaults):
            d.setdefault(p, v)
        for k, v in f.kwdefaults.items():
            d.setdefault(k, v)
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in d:
                return self.bad_call(f, st, node, 'missing argument ' + p)
        return d

    def bad_call(self, f, st, node, why):
        e = self.make_exc(st, ExtV('builtins.TypeError'), ['%s: %s' % (f.qual, why)])
        self.raise_exc(st, e)
        raise PyDead()

    def call_func(self, f, args, kwargs, st, node):
        d = self.bind(f, args, kwargs, st, node)
        h = self.opaque.get(f.qual)
        if h is not None:
            return h(self, st, d, node)
        if self.depth > self.MAXDEPTH:
            raise Unsupported('%s: call depth (recursion?) in %s' % (self.where(node), f.qual))
        if self.memo is not None and getattr(f, 'memo', False):
            # the cached result of an earlier call with the same arguments
            key = [x if isinstance(x, Ref) else self.freeze(x, st) for x in d.values()]
            for g, k, v in self.memo:
                if g == f and len(k) == len(key) and all(veq(x, y) for x, y in zip(k, key)):
                    return v
            g = clone_func(f)
            g.memo = False
            v = self.call_func(g, args, kwargs, st, node)
            self.memo.append((f, key, v))
            return v
        self.stats['functions'].add(f.qual)
        self.nfid += 1
        fid = ('fn', self.nfid)
        fr = Frame(fid, self.frames.get(f.fid), f.module, f)
        self.frames[fid] = fr
        st.frames[fid] = d
        self.depth += 1
        self.where_stack.append((f.module, f.qual.split('.', 1)[-1] if f.module == f.qual else f.qual[len(f.module) + 1:]))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st, fr)
                if fid not in self.captured:
                    st.frames.pop(fid, None)
                return v
            isgen = is_generator(f.node)
            if isgen:
                fr.genref = self.new_ref(st, ListC([]))
            out = self.exec_block(f.node.body, st, fr)
        finally:
            self.depth -= 1
            self.where_stack.pop()
        rets = list(out.rets)
        if out.next is not None:
            rets.append((out.next, None))
        if isgen:
            rets = [(s, fr.genref) for s, _ in rets]
        keep = fid in self.captured
        for s, e in out.raises:
            if not keep:
                s.frames.pop(fid, None)
        self.sink.extend([(s.copy(), e) for s, e in out.raises])     # st is overwritten below
        if not rets:
            raise PyDead()
        if not keep:
            for s, _ in rets:
                s.frames.pop(fid, None)
        ms, v = self.merge_all(rets)
        st.become(ms)
        return v

    def instantiate(self, c, args, kwargs, st, node):
        h = self.opaque.get(c.qual)
        if h is not None:
            return h(self, st, args, kwargs, node)
        ref = self.new_ref(st, ObjC(c, {}))
        init = c.lookup('__init__')
        if isinstance(init, FuncV):
            self.call_func(init, [ref] + list(args), kwargs, st, node)
            return ref
        dc = c.members.get('#dataclass')
        if dc:
            names = [n for n, _ in dc]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for n, has in dc:
                if n not in vals and has:
                    vals[n] = c.members.get(n)
            for n in names:
                self.set_field(st, ref.id, n, vals[n])
            return ref
        self.set_field(st, ref.id, 'args', TupleV(args))
        return ref

    # -- attributes -----------------------------------------------------------
    def getattr(self, o, name, st, node):
        if isinstance(o, Gamma):
            return self.fork_value(o.cond, st, lambda s: self.getattr(o.a, name, s, node),
                                   lambda s: self.getattr(o.b, name, s, node))
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, ObjC):
                if name in h.fields and h.fields[name] is not UNDEF:
                    return undef_free(h.fields[name])
                if isinstance(h.cls, ClassV):
                    m = self.cls_lookup(h.cls, name, st)
                    if isinstance(m, PropV):
                        return self.call_func(m.fget, [o], {}, st, node)
                    if isinstance(m, FuncV):
                        if m.kind == 'static':
                            return m
                        if m.kind == 'class':
                            return BoundV(h.cls, m)
                        return BoundV(o, m)
                    if m is not None:
                        return m
                    if name == '__class__':
                        return h.cls
                    if name == '__dict__':
                        return self.new_ref(st, DictC(list(h.fields.items())))
                if self.attr_hook:
                    v = self.attr_hook(self, o, name, st)
                    if v is not None:
                        return v
                e = self.make_exc(st, ExtV('builtins.AttributeError'), [name])
                self.raise_exc(st, e)
                raise PyDead()
            if isinstance(h, ArrC):
                return self.lib.arr_attr(self, o, name, st, node)
            return BoundV(o, ExtV('method:' + name))
        if isinstance(o, ModV):
            full = o.name + '.' + name
            d = st.frames.get(('mod', o.name)) or self.base.frames.get(('mod', o.name), {})
            if name in d:
                return d[name]
            if full in self.prog.paths:
                return self.import_mod(full)
            e = self.make_exc(st, ExtV('builtins.AttributeError'), [name])
            self.raise_exc(st, e)
            raise PyDead()
        if isinstance(o, ExtV):
            return self.lib.ext(o.path + '.' + name)
        if isinstance(o, ClassV):
            m = self.cls_lookup(o, name, st)
            if m is not None:
                if isinstance(m, FuncV) and m.kind == 'class':
                    return BoundV(o, m)
                return m
            if name == '__name__':
                return o.name
            raise Unsupported('%s: class attribute %s' % (self.where(node), name))
        if isinstance(o, FuncV) and name == '__name__':
            return o.name
        if isinstance(o, FuncV):
            m = undef_free(st.frames.get(('cls', 'f:' + o.qual), {}).get(name, UNDEF))
            if m is not UNDEF:
                return m
            e = self.make_exc(st, ExtV('builtins.AttributeError'), [name])
            self.raise_exc(st, e)
            raise PyDead()
        if isinstance(o, ExtObj):
            v = self.lib.obj_attr(self, o, name, st, node)
            if v is not None:
                return v
            return BoundV(o, ExtV('method:' + name))
        if isinstance(o, R):
            if self.attr_hook:
                v = self.attr_hook(self, o, name, st)
                if v is not None:
                    return v
            return self.lib.r_attr(self, o, name, st, node)
        if isinstance(o, (VecV, Arr, MaskedV)):
            return self.lib.arr_attr(self, o, name, st, node)
        if isinstance(o, (str, StrV, TupleV, ListV, PropV, bool, B, SliceV)):
            return BoundV(o, ExtV('method:' + name))
        if o is None:
            e = self.make_exc(st, ExtV('builtins.AttributeError'), [name])
            self.raise_exc(st, e)
            raise PyDead()
        raise Unsupported('%s: attribute %s of %s' % (self.where(node), name, type(o).__name__))

    def cls_lookup(self, c, name, st):
        """The class attribute in the given state."""
        d = st.frames.get(getattr(c, 'fid', None), {})
        m = undef_free(d[name]) if name in d else UNDEF
        if m is not UNDEF:
            return m
        if name in c.members:
            return c.members[name]
        for b in c.bases:
            if isinstance(b, ClassV):
                m = self.cls_lookup(b, name, st)
                if m is not None:
                    return m
        return None

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Gamma):
            def put(x):
                def g(s):
                    self.setattr(x, name, v, s, node)
                return g
            self.fork_value(o.cond, st, put(o.a), put(o.b))
            return
        if isinstance(o, Ref) and isinstance(st.heap.get(o.id), ObjC):
            h = st.heap[o.id]
            if isinstance(h.cls, ClassV):
                m = self.cls_lookup(h.cls, name, st)
                if isinstance(m, PropV):
                    if m.fset is None:
                        raise Unsupported('assignment to read-only property')
                    self.call_func(m.fset, [o, v], {}, st, node)
                    return
            self.set_field(st, o.id, name, v)
            return
        if isinstance(o, ModV):
            self.set_var(st, ('mod', o.name), name, v)
            return
        if isinstance(o, ClassV) and getattr(o, 'fid', None) is not None:
            st.frames.setdefault(o.fid, {})
            self.set_var(st, o.fid, name, v)
            return
        if isinstance(o, FuncV):
            st.frames.setdefault(('cls', 'f:' + o.qual), {})
            self.set_var(st, ('cls', 'f:' + o.qual), name, v)
            return
        if isinstance(o, (ExtObj, R, ExtV, ClassV)):
            self.event(st, 'setattr', name, [o if isinstance(o, R) else show(o), v], {}, node)
            return
        if name == 'shape' and isinstance(o, Ref) and isinstance(st.heap.get(o.id), ArrC):
            import lib2
            x = self.deref(lib2.arr_method(self, o, st.heap[o.id].val, 'reshape', [v], {}, st, node), st)
            self.hset(st, o.id, ArrC(x))
            return
        raise Unsupported('%s: attribute store on %s' % (self.where(node), type(o).__name__))

    # -- sequences --------------------------------------------------------------
    def seq(self, v, st=None, node=None):
        """Sequence parts of v."""
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if isinstance(h, ListC):
                return list(h.parts)
            if isinstance(h, ArrC):
                return self.seq(h.val, st, node)
            if isinstance(h, DictC):
                return [('item', True if not has_undef(x) else undef_cond(x), k) for k, x in h.items]
            if isinstance(h, ObjC):
                m = h.cls.lookup('__iter__') if isinstance(h.cls, ClassV) else None
                if isinstance(m, FuncV):
                    return self.seq(self.call_func(m, [v], {}, st, node), st, node)
        if isinstance(v, ListV):
            return list(v.parts)
        if isinstance(v, (TupleV, VecV)):
            out = []
            for x in v.items:
                if isinstance(x, StarSeq):
                    out.extend(self.seq(x.v, st, node))
                else:
                    out.append(('item', True, x))
            return out
        if isinstance(v, Arr):
            n = v.shape[0]
            if isinstance(n, R) and n.is_const() and n.value() <= 64:
                return [('item', True, self.elem(v, R.const(i))) for i in range(int(n.value()))]
            k = fresh_atom('k', integer=True, nonneg=True)
            return [('comp', n, k, True, ListV([('item', True, self.elem(v, R.atom(k)))]))]
        if isinstance(v, MaskedV):
            a, m = v.arr, v.mask
            if len(a.ks) == 1:
                k = fresh_atom('k', integer=True, nonneg=True)
                return [('comp', a.shape[0], k, subst(m.body, {m.ks[0].id: R.atom(k)}),
                         ListV([('item', True, self.elem(a, R.atom(k)))]))]
            return list(__import__("lib2").index_list(self, m, lambda ks: subst(a.body, {x.id: k for x, k in zip(a.ks, ks)})).parts)
        if isinstance(v, R):
            a = v.single()
            if a is not None:
                if a.op == 'nonzero' and isinstance(a.args[0], Arr) and len(a.args[0].ks) == 1:
                    z, k = a.args[0], fresh_atom('k', integer=True, nonneg=True)
                    return [('comp', z.shape[0], k, self.lib.tobool(subst(z.body, {z.ks[0].id: R.atom(k)})),
                             ListV([('item', True, R.atom(k))]))]
                if a.ndim and a.shape and a.shape[0] is not None and a.shape[0].is_const():
                    return [('item', True, self.elem(v, R.const(i))) for i in range(int(a.shape[0].value()))]
                m = self.settled_length(v, st)
                if m is not None:
                    return [('item', True, self.elem(v, R.const(i))) for i in range(m)]
                return [('sym', v)]
        if isinstance(v, str):
            return [('item', True, c) for c in v]
        if isinstance(v, Gamma):
            a, b = self.seq(v.a, st, node), self.seq(v.b, st, node)
            return list(guard_parts(v.cond, a)) + list(guard_parts(b_not(v.cond), b))
        raise Unsupported('%s: iteration over %s' % (self.where(node), type(v).__name__))

    def settled_length(self, v, st):
        """The length the path condition fixes for a sequence, if it is small."""
        m = alg.fixed_size(v)
        if m is not None:
            return m
        if st is None:
            return None
        m = None
        for l in conj_literals(st.pc):
            if l.kind != 'cmp' or l.args[1] != '==':
                continue
            p = dict(l.args[0])
            k = p.pop((), 0)
            if len(p) != 1:
                continue
            (mono, co), = p.items()
            a = ATOMS[mono[0][0]] if len(mono) == 1 and mono[0][1] == 1 else None
            if a is None or a.op != 'len':
                continue
            if m is None:
                m = {}
            m[a.id] = R.const(-k / co)
        if not m:
            return None
        n = subst(self.length(v, st), m)
        if isinstance(n, R) and n.is_const() and n.value().denominator == 1 and 0 <= n.value() <= 16:
            return int(n.value())
        return None

    def length(self, v, st=None):
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if isinstance(h, DictC):
                n = R.const(0)
                for _, x in h.items:
                    n = n + (R.const(1) if not has_undef(x) else ite(undef_cond(x), R.const(1), R.const(0)))
                return n
            if isinstance(h, ObjC):
                return self.call(self.getattr(v, '__len__', st, None), [], {}, st, None)
            if isinstance(h, ArrC):
                return self.length(h.val, st)
            v = ListV(h.parts)
        if isinstance(v, (TupleV, VecV)):
            if any(isinstance(x, StarSeq) for x in v.items):
                return self.length(ListV(self.seq(v, st)), st)
            return R.const(len(v.items))
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, str):
            return R.const(len(v))
        if isinstance(v, R):
            a = v.single()
            if a is not None:
                if a.shape:
                    return a.shape[0]
                if a.op == 'ite':
                    return ite(a.args[0], self.length(a.args[1]), self.length(a.args[2]))
                if a.op == 'idx' and len(a.args) == 2:
                    b = a.args[0].single()
                    if isinstance(b.meta, dict) and b.meta.get('width'):
                        return R.const(b.meta['width'])
                return mk_len(v)
            raise Unsupported('len of a number')
        if isinstance(v, ListV):
            t = R.const(0)
            for p in v.parts:
                if p[0] == 'item':
                    t = t + as_r(p[1])
                elif p[0] == 'sym':
                    t = t + self.length(p[1], st)
                else:
                    inner = self.length(p[4], st)
                    if p[3] is not True:
                        inner = ite(p[3], inner, R.const(0))
                    t = t + mk_sum(p[1], p[2], inner)
            return t
        if isinstance(v, Gamma):
            d = self.deref(v, st) if st is not None else v
            if not isinstance(d, Gamma):
                return self.length(d, st)
            return ite(v.cond, self.length(v.a, st), self.length(v.b, st))
        if isinstance(v, StrV):
            return R.atom(get_app('strlen', (v,))[0])
        if isinstance(v, MaskedV) and len(v.arr.ks) == 1:
            return mk_sum(v.arr.shape[0], v.mask.ks[0], ite(v.mask.body, R.const(1), R.const(0)))
        if isinstance(v, MaskedV):
            m = v.mask
            t = ite(self.lib.tobool(m.body), R.const(1), R.const(0))
            for n, k in reversed(list(zip(m.shape, m.ks))):
                k2 = fresh_atom('k', integer=True, nonneg=True)
                t = mk_sum(n, k2, subst(t, {k.id: R.atom(k2)}))
            return t
        raise Unsupported('len of %s' % type(v).__name__)

    def elem(self, v, i, st=None):
        """Element i (R) along the first axis of an immutable sequence."""
        if isinstance(v, R):
            a = v.single()
            if a is None:
                raise Unsupported('indexing a number')
            if a.op == 'ite':
                return ite(a.args[0], self.elem(a.args[1], i), self.elem(a.args[2], i))
            if i.is_const() and i.value() < 0:
                i = self.length(v) + i
            if a.ndim is not None and a.ndim > 1:
                return self.elem(self.lib.as_arr(v), i)
            return idx(v, i)
        if isinstance(v, (TupleV, VecV)):
            if i.is_const():
                j = int(i.value())
                if -len(v.items) <= j < len(v.items):
                    return v.items[j]
                raise Unsupported('index out of range')
            r = v.items[-1]
            for j in range(len(v.items) - 2, -1, -1):
                r = self.merge_vals(mk_cmp(i - R.const(j), '=='), v.items[j], r)
            return r
        if isinstance(v, Arr):
            if i.is_const() and i.value() < 0:
                i = v.shape[0] + i
            sub = {v.ks[0].id: i}
            if len(v.ks) == 1:
                return subst(v.body, sub)
            return eta(Arr([subst(s, sub) if s is not None else None for s in v.shape[1:]], v.ks[1:],
                           subst(v.body, sub), v.tag))
        if isinstance(v, ListV):
            ps = v.parts
            if i.is_const() and i.value() < 0:
                if all(p[0] == 'item' and p[1] is True for p in ps):
                    if -int(i.value()) > len(ps):
                        raise Unsupported('index out of range')
                    return ps[int(i.value())][2]
                # last elements unconditional items
                j = int(-i.value())
                tail = ps[-j:]
                if len(tail) == j and all(p[0] == 'item' and p[1] is True for p in tail):
                    return tail[0][2]
                i = self.length(v) + i
            off = R.const(0)
            pos = i
            for q, p in enumerate(ps):
                rel = pos - off
                if p[0] == 'item' and p[1] is True:
                    if rel.is_const() and rel.value() == 0:
                        return p[2]
                    if rel.is_const():
                        off = off + R.const(1)
                        continue
                    if q == len(ps) - 1:
                        # could be before: gate on equality with earlier items
                        return p[2]
                    rest = self.elem(ListV(ps[q + 1:]), rel - R.const(1))
                    return self.merge_vals(mk_cmp(rel, '=='), p[2], rest)
                if p[0] == 'sym':
                    if q == len(ps) - 1:
                        return self.elem(p[1], rel)
                    n = self.length(p[1])
                    if rel.is_const() and rel.value() == 0:
                        pass
                    return self.merge_vals(mk_cmp(n - rel, '>'), self.elem(p[1], rel),
                                           self.elem(ListV(ps[q + 1:]), rel - n))
                if p[0] == 'comp' and p[3] is True and isinstance(p[4], ListV) and len(p[4].parts) == 1 \
                        and p[4].parts[0][0] == 'item' and p[4].parts[0][1] is True:
                    val = subst(p[4].parts[0][2], {p[2].id: rel})
                    if q == len(ps) - 1:
                        return val
                    return self.merge_vals(mk_cmp(p[1] - rel, '>'), val,
                                           self.elem(ListV(ps[q + 1:]), rel - p[1]))
                if p[0] == 'comp' and len(ps) == 1 and i.is_const() and i.value() == 0 and isinstance(p[4], ListV) \
                        and len(p[4].parts) == 1 and p[4].parts[0][0] == 'item':
                    # the first selected element
                    from loops import mk_first
                    return subst(p[4].parts[0][2], {p[2].id: mk_first(p[1], p[2], b_and(p[3], p[4].parts[0][1]))})
                break
            if alg.SIZES and all(p[0] == 'item' for p in ps) and i.is_const() and i.value() >= 0:
                r = self.present_at(ps, int(i.value()))
                if r is not None:
                    return r
            return R.atom(get_app('item', (v, i))[0])
        if isinstance(v, Gamma):
            return self.merge_vals(v.cond, self.elem(v.a, i), self.elem(v.b, i))
        raise Unsupported('indexing %s' % type(v).__name__)

    def present_at(self, ps, j):
        """The j-th entry present of a few that may be, for a list that long."""
        if len(ps) <= j:
            return None
        a = ps[0][2] if j == 0 else self.present_at(ps[1:], j - 1)
        b = None if ps[0][1] is True else self.present_at(ps[1:], j)
        return a if b is None else b if a is None else self.merge_vals(ps[0][1], a, b)

    def _getitem_hook(self, base, ix):
        v = base
        for i in ix:
            v = self.elem(v, i)
        return v

    def getitem(self, o, i, st, node):
        return self.lib.getitem(self, o, i, st, node)

    def setitem(self, o, i, v, st, node):
        return self.lib.setitem(self, o, i, v, st, node)

    # -- analysis entry -------------------------------------------------------------
    def run(self, f, args, kwargs=None, st=None):
        """Interpret a call; returns Result(value, state, raises)."""
        st = st or self.start()
        self.sink = []
        self.try_depth = 0
        try:
            v = self.call(f, args, kwargs or {}, st, getattr(f, 'node', None) or getattr(getattr(f, 'func', None), 'node', None))
            dead = False
        except PyDead:
            v, dead = None, True
        raises = self.sink
        self.sink = []
        return Result(v, None if dead else st, raises)

    def get(self, qual):
        """Module-level object by qualified name."""
        mod, name = qual.rsplit('.', 1)
        if mod not in self.prog.paths:
            c = self.get(mod)
            r = c.lookup(name) if isinstance(c, ClassV) else None
            if r is None:
                raise Anchor('%s is not defined' % qual)
            return r
        self.load(mod)
        d = self.base.frames[('mod', mod)]
        if name not in d:
            raise Anchor('%s is not defined' % qual)
        return d[name]


class Anchor(Exception):
    pass


class Result:
    def __init__(self, value, state, raises):
        self.value, self.state, self.raises = value, state, raises


def undef_free(v):
    if isinstance(v, Gamma):
        a, b = undef_free(v.a), undef_free(v.b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a is not v.a or b is not v.b:
            return Gamma(v.cond, a, b)
    return v


def has_undef(v):
    return v is UNDEF or (isinstance(v, Gamma) and (v.a is UNDEF or v.b is UNDEF))


def undef_cond(v):
    return v.cond if v.b is UNDEF else b_not(v.cond)


def guard_parts(c, parts):
    out = []
    for p in parts:
        if c is True:
            out.append(p)
        elif c is False:
            continue
        elif p[0] == 'item':
            out.append(('item', b_and(c, p[1]), p[2]))
        elif p[0] == 'comp':
            out.append(('comp', p[1], p[2], b_and(c, p[3]), p[4]))
        else:
            k = fresh_atom('k', integer=True, nonneg=True)
            out.append(('comp', mk_len(p[1]), k, c, ListV([('item', True, idx(p[1], R.atom(k)))])))
    return tuple(out)


def eta(v):
    """{a[i,j] : i,j} -> a."""
    if isinstance(v, Arr) and isinstance(v.body, R):
        a = v.body.single()
        if a is not None and a.op == 'idx' and len(a.args) == 1 + len(v.ks):
            base = a.args[0]
            b = base.single()
            if all(isinstance(x, R) and x.single() is k for x, k in zip(a.args[1:], v.ks)) and b is not None \
                    and not any(contains(base, k.id) for k in v.ks):
                if b.shape and len(b.shape) == len(v.shape) and all(
                        s is not None and t is not None and r_eq(s, t) for s, t in zip(b.shape, v.shape)):
                    return base
                if not b.shape and len(v.ks) == 1 and v.shape[0] is not None:
                    n = v.shape[0].single()
                    if n is not None and n.op == 'len' and veq(n.args[0], base):
                        return base
    if isinstance(v, Arr) and isinstance(v.body, B) and v.body.kind == 'atom':
        r = eta(Arr(v.shape, v.ks, v.body.args[0], v.tag))
        if isinstance(r, R):
            return r
    return v


def memo(f):
    """f with its results cached."""
    if not isinstance(f, FuncV):
        return f
    g = clone_func(f)
    g.memo = True
    return g


def clone_func(f):
    g = FuncV(f.node, f.module, f.fid, f.name, f.qual, f.cls, f.kind)
    g.defaults, g.kwdefaults = f.defaults, f.kwdefaults
    g.memo = getattr(f, 'memo', False)
    return g


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _GEN[node] = r
    return r

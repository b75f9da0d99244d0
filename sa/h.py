"""Shared building blocks of the rules."""
import alg
from alg import *
from values import *
import interp
from interp import Program, Interp, Anchor, PyDead


def seqsym(name, cols=None, width=None):
    """A caller-owned sequence of rows (width: of that many entries each)."""
    r = sym(name)
    a = r.single()
    a.meta = {'cols': cols or width, 'width': width} if cols or width else 'seq'
    return r


class World:
    """One program, one interpreter, the symbolic inputs."""

    def __init__(self, root='/repo', overlay=None):
        self.root = root
        self.I = Interp(Program(root, overlay))
        self.broken = {}
        for m in sorted(self.I.prog.paths):
            if m.startswith('oneka'):
                try:
                    self.I.load(m)
                except (Unsupported, PyDead) as e:
                    self.broken[m] = e

    def model(self, st, tag='', coef=None, ctor=True):
        I = self.I
        M = I.get('oneka.model.Model')
        v = dict(base=sym(tag + 'base'), conductivity=sym(tag + 'K', pos=True), porosity=sym(tag + 'n', pos=True),
                 thickness=sym(tag + 'T', pos=True), wells=seqsym(tag + 'wells', width=4), xo=sym(tag + 'xo'),
                 yo=sym(tag + 'yo'))
        if coef is None:
            coef = VecV([sym(tag + 'c%d' % i) for i in range(6)])
        v['coef'] = I.new_ref(st, ArrC(coef))
        ref = I.call(M, [v['base'], v['conductivity'], v['porosity'], v['thickness'], v['wells']],
                     dict(xo=v['xo'], yo=v['yo'], coef=v['coef']), st, None)
        v['coef'] = coef
        return ref, v

    def field(self, st, tag='', empty=False):
        """A probability field: built by its constructor, then every documented
        attribute given an arbitrary value satisfying the class invariant."""
        import lib2
        I = self.I
        P = I.get('oneka.probabilityfield.ProbabilityField')
        dx, dy = sym(tag + 'dx', pos=True), sym(tag + 'dy', pos=True)
        old, lib2.FINITE[0] = lib2.FINITE[0], True
        sink, I.sink = I.sink, []
        try:
            args = [dx, dy] if empty else [dx, dy, sym(tag + 'pxo'), sym(tag + 'pyo')]
            ref = I.call(P, args, {}, st, None)
        finally:
            lib2.FINITE[0] = old
            I.sink = sink
        v = dict(deltax=dx, deltay=dy)
        if not empty:
            nr, nc = sym(tag + 'nrows', pos=True, integer=True), sym(tag + 'ncols', pos=True, integer=True)
            xm, ym = sym(tag + 'xmin'), sym(tag + 'ymin')
            one = R.const(1)
            v.update(nrows=nr, ncols=nc, xmin=xm, ymin=ym, xmax=xm + (nc - one) * dx, ymax=ym + (nr - one) * dy,
                     pgrid=sym(tag + 'pgrid', ndim=2, shape=(nr, nc)),
                     rgrid=sym(tag + 'rgrid', ndim=2, shape=(nr, nc), boolean=True),
                     total_weight=sym(tag + 'total_weight'))
            for k, x in v.items():
                y = I.new_ref(st, ArrC(x)) if k in ('pgrid', 'rgrid') else x
                I.setattr(ref, k, y, st, None)
        return ref, v

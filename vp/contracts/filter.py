"""Contracts of hiopFilter: the set of (theta, phi) pairs that trial points must improve on."""
from .base import *
SRC = ['Optimization/hiopFilter.cpp', 'Optimization/hiopAlgFilterIPM.cpp']
P = 'hiop::hiopFilter::'
def filter_state(env, b, off=0, nm=None):
    """a filter stored at offset off of block b: any number of entries"""
    nm = nm or b.name
    n = env.sym(nm + '.size', 'I'); env.fact(ge(n, I(0)))
    d = Block(nm + '.entries', 'arr', None, stride=16, length=n if TM.EXPAND[0] else None); d.env = env
    for o, w in ((0, 'theta'), (8, 'phi')):
        d.lazy_cols[o] = (8, env.arr('%s.%s' % (nm, w), n, 'R'))
    if TM.EXPAND[0]: d.length = None
    b.lazy_cells[off] = (8, mkptr(d)); b.lazy_cells[off + 16] = (8, n)
    return d
SHAPE['hiop::hiopFilter'] = lambda env, b, **kw: filter_state(env, b)
class FilterView(View):
    def _p(s): return toptr(s.c.ex.load(s.c.st, s.ptr, ('ptr',), s.c.mod))
    @property
    def n(s): return s.c.ex.load(s.c.st, pshift(s.ptr, I(16)), ('i', 64), s.c.mod)
    def entries(s):
        p = s._p(); f = [Arr(s.c, pshift(p, I(o))).snap() for o in (0, 8)]
        return f
    def contains(s, th, ph):
        """some entry is dominated-or-matched: theta >= theta_i and phi >= phi_i"""
        T_, F = s.entries()
        return Exists(s.n, lambda i: and_(ge(th, T_(i)), ge(ph, F(i))))
    def reset(s, th, ph):
        s.c.st.wr(s._p().base)
        for o, v in ((0, th), (8, ph)): s._col(o, (lambda v: lambda j: ite(eq(j, I(0)), v, R(0)) if v is not None else R(0))(v))
        s._len(I(1) if th is not None else I(0))
    def _col(s, o, f): s.c.st.wr(s._p().base).cols[o] = (8, alam(f))
    def _len(s, n): s.c.ex.store(s.c.st, pshift(s.ptr, I(16)), n, ('i', 64), s.c.mod)
    def add(s, th, ph):
        T_, F = s.entries()
        for o, v, A in ((0, th, T_), (8, ph, F)): s._col(o, (lambda v, A: lambda j: ite(eq(j, I(0)), v, A(sub(j, I(1)))))(v, A))
        s._len(add(s.n, I(1)))
VIEW['hiop::hiopFilter'] = FilterView
def forgets_nothing(c, s, before, f):
    """observable content of the filter: which points it rejects, for every point (theta, phi)"""
    off = s.ptr
    def post(c2, r):
        S_ = FilterView(c2, off, 'hiop::hiopFilter'); th, ph = c.env.sym('probe.theta', 'R'), c.env.sym('probe.phi', 'R')
        return eq(S_.contains(th, ph), f(before, th, ph))
    if c.mode == 'verify':
        c.ensures.append(('rejected points', post)); s._p().base.scratch = True; c.st.own.add(s._p().base)
        for b in [x[1] for x in off.alts if x[1] is not None]: b.ignore = set(b.ignore) | {0, 16}
def rej(T_, F, n): return lambda th, ph: Exists(n, lambda i: and_(ge(th, T_(i)), ge(ph, F(i))))
@contract(P + 'contains(double const&, double const&) const')
def _(c, s, th, ph): return s.contains(th.v, ph.v)
@contract([P + 'initialize(double const&)', P + 'reinitialize(double const&)'])
def _(c, s, th):
    t = th.v; s.reset(t, const(Fraction(-1e20), 'R'))
    forgets_nothing(c, s, None, lambda b, th, ph: and_(ge(th, t), ge(ph, const(Fraction(-1e20), 'R'))))
@contract(P + 'clear()')
def _(c, s): s.reset(None, None); forgets_nothing(c, s, None, lambda b, th, ph: FALSE)
@contract(P + 'add(double const&, double const&)')
def _(c, s, th, ph):
    t, p = th.v, ph.v; b = rej(*s.entries(), s.n)
    s.add(t, p); forgets_nothing(c, s, b, lambda b, x, y: or_(b(x, y), and_(ge(x, t), ge(y, p))))
ALL = [n for n in REG if n.startswith(P)]

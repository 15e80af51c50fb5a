"""Contracts of hiopIterate."""
from .base import *
SRC = VEC.SRC + ['Optimization/hiopIterate.cpp', 'Optimization/hiopNlpFormulation.cpp']
P = 'hiop::hiopIterate::'
IT = 'hiop::hiopIterate const&'
# name -> (bound vectors and patterns): lower/upper slack blocks
BL = [('sxl', 'zl', 'x', 'xl_', 'ixl_', 1), ('sxu', 'zu', 'x', 'xu_', 'ixu_', -1), ('sdl', 'vl', 'd', 'dl_', 'idl_', 1), ('sdu', 'vu', 'd', 'du_', 'idu_', -1)]
def g(o, n): return getattr(o, n)
def inv_patterns(c, it, which):
    for m in which:
        p = [b[4] for b in BL if m in b[:2]][0]
        matches(c, g(it, m), g(it.nlp, p))
DUALS = ('zl', 'zu', 'vl', 'vu'); SLACKS = ('sxl', 'sxu', 'sdl', 'sdu')
def patterns(c, nlp): boolpat(c, nlp.ixl_, nlp.ixu_, nlp.idl_, nlp.idu_)

def proj_spec(c, v, l, il, u, iu, k1, k2):
    X, L, IL, U, IU = v.a, l.a, il.a, u.a, iu.a
    hl, hu = (lambda i: not_(zero(IL(i)))), (lambda i: not_(zero(IU(i))))
    c.require(gt(k1, R(0))); c.require(gt(k2, R(0))); c.require(lt(k2, R(Fraction(1, 2))))
    c.require(Forall(v.n, lambda i: implies(and_(hl(i), hu(i)), le(L(i), U(i)))), 'consistent bounds')
    c.require(Forall(v.n, lambda i: implies(and_(hl(i), hu(i), le(L(i), U(i))), gt(mul(k2, sub(U(i), L(i))), R(SMALL)))))
    v.a = lambda j: proj(X(j), L(j), hl(j), U(j), hu(j), k1, k2)
@contract(P + 'projectPrimalsXIntoBounds(double, double)')
def _(c, s, k1, k2): proj_spec(c, s.x, s.nlp.xl_, s.nlp.ixl_, s.nlp.xu_, s.nlp.ixu_, k1, k2)
@contract(P + 'projectPrimalsDIntoBounds(double, double)')
def _(c, s, k1, k2): proj_spec(c, s.d, s.nlp.dl_, s.nlp.idl_, s.nlp.du_, s.nlp.idu_, k1, k2)
@contract(P + 'setBoundsDualsToConstant(double const&)')
def _(c, s, v):
    v = v.v
    for m, p in zip(DUALS, ('ixl_', 'ixu_', 'idl_', 'idu_')): g(s, m).a = sel1(g(s.nlp, p).a, lambda j: v)
@contract(P + 'setEqualityDualsToConstant(double const&)')
def _(c, s, v): v = v.v; s.yc.a = lambda j: v; s.yd.a = lambda j: v
def l1(v): A = v.a; return Sum(v.n, lambda i: absr(A(i)))
def nbd(s): return add(AllSum(add(l1(s.zl), l1(s.zu))), l1(s.vl), l1(s.vu)) if False else add(AllSum(add(l1(s.zl), l1(s.zu))), add(l1(s.vl), l1(s.vu)))
@contract(P + 'normOneOfBoundDuals() const')
def _(c, s): inv_patterns(c, s, DUALS); return nbd(s)
@contract(P + 'normOneOfEqualityDuals() const')
def _(c, s): inv_patterns(c, s, DUALS); return add(nbd(s), add(l1(s.yc), l1(s.yd)))
@contract(P + 'normOneOfDuals(double&, double&) const')
def _(c, s, e, b): inv_patterns(c, s, DUALS); x, y = add(l1(s.yc), l1(s.yd)), nbd(s); e.v = x; b.v = y
@contract(P + 'selectPattern()')
def _(c, s):
    for sl, z, _x, _b, p, _s in BL:
        for m in (sl, z): g(s, m).a = sel0(g(s.nlp, p).a, g(s, m).a)
def slacks(s):
    for sl, z, x, b, p, sg in BL:
        X, B = g(s, x).a, g(s.nlp, b).a
        g(s, sl).a = sel0(g(s.nlp, p).a, (lambda X, B, sg: lambda j: scale(sg, sub(X(j), B(j))))(X, B, sg))
@contract(P + 'determineSlacks()')
def _(c, s): slacks(s)
@contract(P + 'determineDualsBounds_d(double const&)')
def _(c, s, mu):
    mu = mu.v; positive(c, s.sdl, s.nlp.idl_); positive(c, s.sdu, s.nlp.idu_)
    for v, sl, p in (('vl', 'sdl', 'idl_'), ('vu', 'sdu', 'idu_')):
        S_ = g(s, sl).a; g(s, v).a = sel0(g(s.nlp, p).a, (lambda S_: lambda j: div(mu, S_(j)))(S_))
def ftb_req(c, s, d, ms):
    for m in ms:
        p = [b[4] for b in BL if m in b[:2]][0]; X, D, P_ = g(s, m).a, g(d, m).a, g(s.nlp, p).a
        c.require(Forall(g(s, m).n, (lambda X, D, P_: lambda i: implies(and_(lt(D(i), R(0)), not_(zero(P_(i)))), gt(X(i), R(0))))(X, D, P_)))
def amin(s, d, ms, t):
    r = R(10)
    for m in ms:
        p = [b[4] for b in BL if m in b[:2]][0]
        r = minr(r, ftb(g(s, m).n, g(s, m).a, g(d, m).a, t, g(s.nlp, p).a))
    return r
@contract(P + 'fractionToTheBdry(%s, double const&, double&, double&) const' % IT)
def _(c, s, d, tau, ap, ad):
    t = tau.v; c.require(and_(gt(t, R(0)), lt(t, R(1))))
    ftb_req(c, s, d, SLACKS + DUALS)
    p, q = AllMin(amin(s, d, SLACKS, t)), AllMin(amin(s, d, DUALS, t))
    ap.v = p; ad.v = q
    return TRUE
def step(s, it, d, m, al):
    A, D = g(it, m).a, g(d, m).a; g(s, m).a = lambda j: add(A(j), mul(al, D(j)))
@contract(P + 'takeStep_primals(%s, %s, double const&, double const&)' % (IT, IT))
def _(c, s, it, d, ap, ad):
    al = ap.v
    for m in ('x', 'd'): step(s, it, d, m, al)
    return TRUE
@contract(P + 'takeStep_duals(%s, %s, double const&, double const&)' % (IT, IT))
def _(c, s, it, d, ap, ad):
    inv_patterns(c, it, DUALS); inv_patterns(c, d, DUALS)
    p, q = ap.v, ad.v
    for m in ('yd', 'yc'): step(s, it, d, m, p)
    for m in DUALS: step(s, it, d, m, q)
    return TRUE
EPS = Fraction(2) ** -52
def adjslack(c, sl, bnd, dual, sel, mu):
    S_, B, D, P_ = sl.a, bnd.a, dual.a, sel.a
    small = mul(R(EPS), minr(R(1), mu)); sf = intrin.fpow(R(EPS), R(Fraction(0.75)))
    smin = AllMin(Fold(sl.n, DBL_MAX, lambda a, i: ite(one(P_(i)), minr(a, S_(i)), a)))
    act = and_(gt(sl.n_, I(0)), lt(smin, small))
    low = lambda i: and_(one(P_(i)), lt(S_(i), small))
    def f(j):
        s0 = maxr(S_(j), R(0))
        tgt = maxr(div(mu, D(j)), small)                    # wanted slack
        cap = add(s0, mul(sf, maxr(R(1), absr(B(j)))))
        return ite(and_(act, low(j)), minr(tgt, cap), S_(j))
    cnt = ite(act, AllSum(Count(sl.n, low)), I(0))
    return f, cnt
V1 = 'hiop::hiopVector&'
@contract(P + 'adjust_small_slacks(%s, %s, %s, %s, double const&, %s, %s, %s)' % (V1, V, V, V, V1, V1, V1))
def _(c, s, sl, bnd, dual, sel, mu, a1, a2, a3):
    mu = mu.v; c.require(gt(mu, R(0))); boolpat(c, sel)
    for v in (bnd, dual, sel, a1, a2, a3): part(c, sl, v)
    matches(c, sl, sel)
    DV, P_ = dual.a, sel.a
    c.require(Forall(sl.n, lambda i: implies(one(P_(i)), gt(DV(i), R(0)))))
    f, cnt = adjslack(c, sl, bnd, dual, sel, mu)
    sl.a = f
    for a in (a1, a2, a3): c.havoc(a)
    return cnt
def safe(c, s, itc, mu):
    tot = I(0)
    for sl, z, x, b, p, sg in BL:
        f, cnt = adjslack(c, g(s, sl), g(s.nlp, b), g(itc, z), g(s.nlp, p), mu)
        g(s, sl).a = f; tot = add(tot, cnt)
    return tot
def safe_req(c, s, itc, mu):
    c.require(gt(mu, R(0))); patterns(c, s.nlp)
    for sl, z, x, b, p, sg in BL:
        DV, P_ = g(itc, z).a, g(s.nlp, p).a
        c.require(Forall(g(s, sl).n, (lambda DV, P_: lambda i: implies(one(P_(i)), gt(DV(i), R(0))))(DV, P_)))
@contract(P + 'adjust_small_slacks(%s, double const&)' % IT)
def _(c, s, itc, mu):
    mu = mu.v; safe_req(c, s, itc, mu); inv_patterns(c, s, SLACKS)
    return safe(c, s, itc, mu)
@contract(P + 'compute_safe_slacks(%s, double const&)' % IT)
def _(c, s, itc, mu):
    mu = mu.v; safe_req(c, s, itc, mu); slacks(s)
    return safe(c, s, itc, mu)
@contract(P + 'adjustDuals_primalLogHessian(double const&, double const&)')
def _(c, s, mu, ka):
    m, k = mu.v, ka.v; c.require(gt(k, R(1))); c.require(gt(m, R(0))); patterns(c, s.nlp); inv_patterns(c, s, DUALS)
    for sl, z, x, b, p, sg in BL:
        X, P_, Z = g(s, sl).a, g(s.nlp, p).a, g(s, z).a
        c.require(Forall(g(s, sl).n, (lambda X, P_: lambda i: implies(one(P_(i)), gt(X(i), R(0))))(X, P_)))
        def f(j, X=X, P_=P_, Z=Z):
            r = div(m, X(j)); return ite(one(P_(j)), maxr(minr(Z(j), mul(r, k)), div(r, k)), Z(j))
        g(s, z).a = f
    return TRUE
def lb(v, p): A, P_ = v.a, p.a; return Sum(v.n, lambda i: ite(one(P_(i)), log(A(i)), R(0)))
def logbar(s): return add(AllSum(add(lb(s.sxl, s.nlp.ixl_), lb(s.sxu, s.nlp.ixu_))), add(lb(s.sdl, s.nlp.idl_), lb(s.sdu, s.nlp.idu_)))
@contract(P + 'evalLogBarrier() const')
def _(c, s): return logbar(s)
def lbgrad(v, mu, prs):
    G = v.a
    def f(j):
        r = G(j)
        for sg, s_, P_ in prs: r = ite(one(P_(j)), add(r, div(scale(sg, mu), s_(j))), r)
        return r
    return f
@contract(P + 'addLogBarGrad_x(double const&, hiop::hiopVector&) const')
def _(c, s, mu, gr): same(c, s.x, gr); gr.a = lbgrad(gr, mu.v, [(-1, s.sxl.a, s.nlp.ixl_.a), (1, s.sxu.a, s.nlp.ixu_.a)])
@contract(P + 'addLogBarGrad_d(double const&, hiop::hiopVector&) const')
def _(c, s, mu, gr): same(c, s.d, gr); gr.a = lbgrad(gr, mu.v, [(-1, s.sdl.a, s.nlp.idl_.a), (1, s.sdu.a, s.nlp.idu_.a)])
def ld(v, l, r): A, L, U = v.a, l.a, r.a; return Sum(v.n, lambda i: ite(and_(one(L(i)), zero(U(i))), A(i), R(0)))
def damp(s, mu, kd):
    t = lambda v, l, r: mul(kd, mul(mu, ld(v, l, r)))
    N = s.nlp
    return add(AllSum(add(t(s.sxl, N.ixl_, N.ixu_), t(s.sxu, N.ixu_, N.ixl_))), add(t(s.sdl, N.idl_, N.idu_), t(s.sdu, N.idu_, N.idl_)))
@contract(P + 'linearDampingTerm(double const&, double const&) const')
def _(c, s, mu, kd): return damp(s, mu.v, kd.v)
def dampgrad(v, l, r, ct): G, L, U = v.a, l.a, r.a; return lambda j: add(G(j), mul(ct, sub(L(j), U(j))))
@contract(P + 'addLinearDampingTermToGrad_x(double const&, double const&, double const&, hiop::hiopVector&) const')
def _(c, s, mu, kd, be, gr): same(c, s.x, gr); gr.a = dampgrad(gr, s.nlp.ixl_, s.nlp.ixu_, mul(mul(kd.v, mu.v), be.v))
@contract(P + 'addLinearDampingTermToGrad_d(double const&, double const&, double const&, hiop::hiopVector&) const')
def _(c, s, mu, kd, be, gr): same(c, s.d, gr); gr.a = dampgrad(gr, s.nlp.idl_, s.nlp.idu_, mul(mul(kd.v, mu.v), be.v))
def copyit(s, o):
    for m in ITV: g(s, m).a = g(o, m).a
@contract(P + 'copyFrom(%s)' % IT)
def _(c, s, o): copyit(s, o)
ALL = [n for n in REG if n.startswith(P)]
INTERIOR = [n for n in ALL if any(k in n for k in ('projectPrimals', 'fractionToTheBdry', 'adjustDuals', 'adjust_small', 'compute_safe', 'determineDuals', 'setBoundsDuals'))]
STEPS = [n for n in ALL if n not in INTERIOR and 'normOne' not in n]
NORMS = [n for n in ALL if 'normOne' in n]

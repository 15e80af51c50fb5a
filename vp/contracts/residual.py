"""Contracts of hiopResidual (optimality, feasibility and complementarity residuals) and hiopLogBarProblem."""
from .base import *
from . import iterate as ITR, dense as DEN
from .iterate import g, BL, patterns, logbar, lbgrad, damp, dampgrad
SRC = VEC.SRC + ['Optimization/hiopIterate.cpp', 'Optimization/hiopNlpFormulation.cpp', 'Optimization/hiopResidual.cpp', 'Optimization/hiopAlgFilterIPM.cpp', 'LinAlg/hiopMatrixDenseRowMajor.cpp']
P = 'hiop::hiopResidual::'; L = 'hiop::hiopLogBarProblem::'
IT = 'hiop::hiopIterate const&'; VC = 'hiop::hiopVector const&'; MG = 'hiop::hiopMatrix const&'
NB = {'ixl_': 'n_bnds_low_local_', 'ixu_': 'n_bnds_upp_local_', 'idl_': 'n_ineq_low_', 'idu_': 'n_ineq_upp_'}
RB = {'ixl_': ('rxl', 'rszl'), 'ixu_': ('rxu', 'rszu'), 'idl_': ('rdl', 'rsvl'), 'idu_': ('rdu', 'rsvu')}
def shape_lb(env, b, **kw):
    b.over['_grad_x_logbar'] = vx(env, b.name + '.gx'); b.over['_grad_d_logbar'] = vd(env, b.name + '.gd'); b.over['nlp'] = the_nlp(env)
SHAPE['hiop::hiopLogBarProblem'] = shape_lb
def jac(env, nm, k):
    n, il, ng = space(env)['x']; m = space(env)[k][0]
    return mkptr(env.obj('hiop::hiopMatrixDenseRowMajor', nm, m=m, n=n, local=False, ng=ng, jl=il))
jc = lambda env, nm, args: jac(env, nm, 'c')
jd = lambda env, nm, args: jac(env, nm, 'd')
def counts(c, N):
    """the numbers of bounds agree with the selection patterns"""
    patterns(c, N)
    for p, m in NB.items():
        k, v = g(N, m), g(N, p); P_ = v.a
        c.require(implies(le(k, I(0)), Forall(v.n, lambda i: zero(P_(i)))), 'no bounds: empty pattern')
        c.require(implies(ge(k, v.n), Forall(v.n, lambda i: one(P_(i)))), 'all bounded: full pattern')
def resid_zero(c, s):
    """residual components of absent bounds are zero"""
    for p, ms in RB.items():
        for m in ms: matches(c, g(s, m), g(s.nlp, p))
def diff(a, b): A, B = a.a, b.a; return lambda j: sub(A(j), B(j))
def bound_resid(s, it):
    """rxl = x - sxl - xl etc. where the bound exists, zero elsewhere"""
    N = s.nlp
    for sl, z, x, b, p, sg in BL:
        X, SL, B = g(it, x).a, g(it, sl).a, g(N, b).a
        f = (lambda X, SL, B, sg: lambda j: sub(scale(sg, sub(X(j), B(j))), SL(j)))(X, SL, B, sg)
        r = g(s, RB[p][0]); r.a = sel0(g(N, p).a, f)
def one_norm(v): A = v.a; return AllSum(Sum(v.n, lambda i: absr(A(i))))
def fnorm(n, f): return Max(n, R(0), lambda i: absr(f(i)))
def fone(n, f): return AllSum(Sum(n, lambda i: absr(f(i))))
HV = {1: vc and (lambda env, nm, args: vc(env, nm)), 2: lambda env, nm, args: vd(env, nm)}
@contract(P + 'compute_nlp_infeasib_onenorm(%s, %s, %s)' % (IT, VC, VC), args=HV)
def _(c, s, it, cc, d):
    counts(c, s.nlp); 
    for p, ms in RB.items(): matches(c, g(s, ms[0]), g(s.nlp, p))
    rc, rd = diff(s.nlp.c_rhs_, cc), diff(it.d, d)
    s.ryc.a = rc; s.ryd.a = rd
    bound_resid(s, it)
    return add(fone(s.ryc.n, rc), fone(s.ryd.n, rd))
def damping_on(lb): return gt(lb.kappa_d, R(0))
def viol(n, P_, f):
    """largest violation of f >= 0 among the selected entries"""
    m = AllMin(Fold(n, DBL_MAX, lambda a, i: ite(one(P_(i)), minr(a, f(i)), a)))
    return ite(lt(m, R(0)), neg(m), R(0))
def lagr_x(c, grad, jcm, jdm, it):
    """gradient of the Lagrangian in x"""
    G, ZL, ZU, YC, YD = grad.a, it.zl.a, it.zu.a, it.yc.a, it.yd.a
    a = DEN.mtvprod(jcm, R(1), G, R(1), YC); b = DEN.mtvprod(jdm, R(1), a, R(1), YD)
    for n, f in ((grad.n, G), (it.yc.n, YC), (grad.n, a), (it.yd.n, YD)): DEN.finite(c, n, f)
    return lambda j: add(sub(b(j), ZL(j)), ZU(j))
@contract(P + 'update(%s, double const&, %s, %s, %s, %s, %s, hiop::hiopLogBarProblem const&)' % (IT, VC, VC, VC, MG, MG),
          args={2: kvec('c'), 3: kvec('d'), 4: kvec('x'), 5: jc, 6: jd, 7: lambda env, nm, args: lbarg(env, nm, args[1])})
def _(c, s, it, f, cc, d, grad, jcm, jdm, lb): return update(c, s, it, cc, d, grad, jcm, jdm, lb, False)
@contract(P + 'update_soc(%s, %s, %s, %s, %s, %s, hiop::hiopLogBarProblem const&)' % (IT, VC, VC, VC, MG, MG),
          args={1: kvec('c'), 2: kvec('d'), 3: kvec('x'), 4: jc, 5: jd, 6: lambda env, nm, args: lbarg(env, nm, args[1])})
def _(c, s, it, cc, d, grad, jcm, jdm, lb): update(c, s, it, cc, d, grad, jcm, jdm, lb, True)
def update(c, s, it, cc, d, grad, jcm, jdm, lb, soc):
    """residual of the barrier problem; soc: the feasibility residuals are given (second-order correction)"""
    N = s.nlp; counts(c, N); resid_zero(c, s)
    for sl, z, x, b, p, sg in BL:
        if x == 'x':
            for m in (sl, z): matches(c, g(it, m), g(N, p))
    mu = lb.mu; on = damping_on(lb); kd = lb.kappa_d
    c.require(ptr_eq(lb.iter.ptr, it.ptr), 'log-barrier problem is at the same iterate')
    n, md = s.rx.n, s.rd.n
    # stationarity in x and d
    GX = lagr_x(c, grad, jcm, jdm, it)
    s.rx.a = GX
    full = dampgrad(s.rx, N.ixl_, N.ixu_, mul(mul(kd, mu), R(1)))
    rx = lambda j: neg(ite(on, full(j), GX(j)))
    YD, VL, VU = it.yd.a, it.vl.a, it.vu.a
    GD = lambda j: sub(add(YD(j), VL(j)), VU(j))
    s.rd.a = GD
    fulld = dampgrad(s.rd, N.idl_, N.idu_, mul(mul(kd, mu), R(-1)))
    rd = lambda j: ite(on, fulld(j), GD(j))
    s.rx.a = rx; s.rd.a = rd
    no, bo = maxr(fnorm(n, GX), fnorm(md, GD)), maxr(fnorm(n, rx), fnorm(md, rd))
    no1, bo1 = add(fone(n, GX), fone(md, GD)), add(fone(n, rx), fone(md, rd))
    # feasibility
    rc, rdd = (cc.a, d.a) if soc else (diff(N.c_rhs_, cc), diff(it.d, d))
    s.ryc.a = rc; s.ryd.a = rdd; mc = s.ryc.n
    feas = maxr(fnorm(mc, rc), fnorm(md, rdd)); feas1 = add(fone(mc, rc), fone(md, rdd))
    cv_ = maxr(fnorm(mc, rc), maxr(viol(md, N.idl_.a, diff(d, N.dl_)), viol(md, N.idu_.a, diff(N.du_, d))))
    bound_resid(s, it)
    # complementarity
    nc = bc = R(0)
    for sl, z, x, b, p, sg in BL:
        SL, Z, P_ = g(it, sl).a, g(it, z).a, g(N, p).a; r = g(s, RB[p][1])
        raw_ = sel0(P_, (lambda SL, Z: lambda j: neg(mul(SL(j), Z(j))))(SL, Z))
        bar = (lambda raw_, P_: lambda j: ite(one(P_(j)), add(raw_(j), mu), raw_(j)))(raw_, P_)
        r.a = bar; has = gt(g(N, NB[p]), I(0))
        nc = maxr(nc, ite(has, fnorm(r.n, raw_), R(0))); bc = maxr(bc, ite(has, fnorm(r.n, bar), R(0)))
    s.nrmInf_nlp_optim = AllMax(no); s.nrmInf_bar_optim = AllMax(bo); s.nrmInf_nlp_feasib = AllMax(feas); s.nrmInf_bar_feasib = AllMax(feas)
    s.nrmInf_nlp_complem = AllMax(nc); s.nrmInf_bar_complem = AllMax(bc)
    if not soc: s.nrmInf_cons_violation = cv_
    s.nrmOne_nlp_feasib = s.nrmOne_bar_feasib = feas1; s.nrmOne_nlp_feasib = feas1
    s.nrmOne_nlp_optim = no1; s.nrmOne_bar_optim = bo1
    return I(1)
def lbarg(env, nm, it):
    p = env.obj('hiop::hiopLogBarProblem', nm); p.over['iter'] = it; return mkptr(p)
NORMS = ('nrmInf_nlp_optim', 'nrmInf_bar_optim', 'nrmInf_nlp_feasib', 'nrmInf_bar_feasib', 'nrmInf_nlp_complem', 'nrmInf_bar_complem', 'nrmOne_nlp_feasib', 'nrmOne_bar_feasib', 'nrmOne_nlp_optim', 'nrmOne_bar_optim')
@contract(P + 'copyFrom(hiop::hiopResidual const&)')
def _(c, s, o):
    for m in RSV: g(s, m).a = g(o, m).a
    for m in NORMS + ('nrmInf_cons_violation',): setattr(s, m, g(o, m))

# ------------------------------------------------------------- log-barrier problem
def lb_self(env, st):
    it = mkptr(env.obj('hiop::hiopIterate', 'it0')); b = env.obj('hiop::hiopLogBarProblem', 'self'); b.over['iter'] = it; return mkptr(b)
@contract(L + 'updateWithNlpInfo(%s, double const&, double const&, %s, %s, %s, %s, %s)' % (IT, VC, VC, VC, MG, MG), args={3: kvec('c'), 4: kvec('d'), 5: kvec('x'), 6: jc, 7: jd})
def _(c, s, it, mu, f, cc, d, grad, jcm, jdm):
    mu, f = mu.v, f.v; N = s.nlp; on = damping_on(s); kd = s.kappa_d; G = grad.a
    s.mu = mu; s.c_nlp = cc.ptr; s.d_nlp = d.ptr; s.Jac_c_nlp = jcm.ptr; s.Jac_d_nlp = jdm.ptr; s.iter = it.ptr
    s.f_logbar = add(sub(f, mul(mu, logbar(it))), ite(on, damp(it, mu, kd), R(0)))
    gx, gd = s._grad_x_logbar, s._grad_d_logbar
    gx.a = G; gd.a = lambda j: R(0)
    gx.a = lbgrad(gx, mu, [(-1, it.sxl.a, N.ixl_.a), (1, it.sxu.a, N.ixu_.a)])
    gd.a = lbgrad(gd, mu, [(-1, it.sdl.a, N.idl_.a), (1, it.sdu.a, N.idu_.a)])
    for v, l, u in ((gx, N.ixl_, N.ixu_), (gd, N.idl_, N.idu_)):
        A = v.a; B = dampgrad(v, l, u, mul(kd, mu)); v.a = (lambda A, B: lambda j: ite(on, B(j), A(j)))(A, B)
@contract(L + 'updateWithNlpInfo_trial_funcOnly(%s, double const&, %s, %s)' % (IT, VC, VC), args={2: kvec('c'), 3: kvec('d')})
def _(c, s, it, f, cc, d):
    mu = s.mu
    s.c_nlp_trial = cc.ptr; s.d_nlp_trial = d.ptr; s.iter_trial = it.ptr
    s.f_logbar_trial = add(sub(f.v, mul(mu, logbar(it))), ite(damping_on(s), damp(it, mu, s.kappa_d), R(0)))
for k, l, u in (('x', 'ixl_', 'ixu_'), ('d', 'idl_', 'idu_')):
    @contract(L + 'addNonLogBarTermsToGrad_%s(double const&, hiop::hiopVector&) const' % k, args={'this': lb_self, 1: kvec(k)})
    def _(c, s, be, v, k=k, l=l, u=u):
        same(c, g(s.iter, k), v)
        A = v.a; B = dampgrad(v, g(s.iter.nlp, l), g(s.iter.nlp, u), mul(mul(s.kappa_d, s.mu), be.v)); on = damping_on(s)
        v.a = lambda j: ite(on, B(j), A(j))
def dot(a, b): A, B = a.a, b.a; return AllSum(Sum(a.n, lambda i: mul(A(i), B(i))))
@contract(L + 'directionalDerivative(%s)' % IT, args={'this': lb_self})
def _(c, s, dr):
    return add(dot(dr.x, s._grad_x_logbar), dot(dr.d, s._grad_d_logbar))
ALL = [n for n in REG if n.startswith(P) or n.startswith(L)]

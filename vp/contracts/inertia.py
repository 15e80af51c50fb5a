"""Contracts of the inertia-correction machinery (hiopPDPerturbation*) and the factorization acceptors."""
from .base import *
SRC = VEC.SRC + ['Optimization/hiopFactAcceptor.cpp', 'Optimization/hiopPDPerturbation.cpp', 'Optimization/hiopNlpFormulation.cpp']
PB = 'hiop::hiopPDPerturbation::'
PP = 'hiop::hiopPDPerturbationPrimalFirstScalar::'
PD = 'hiop::hiopPDPerturbationDualFirstScalar::'
PV = {'wx': 'x', 'wd': 'd', 'cc': 'c', 'cd': 'd'}
def _shape(env, b, **kw):
    for k, kind in PV.items():
        for w in ('curr', 'last'): b.over['delta_%s_%s_' % (k, w)] = KIND[kind](env, '%s.delta_%s_%s_' % (b.name, k, w))
    b.over['nlp_'] = the_nlp(env)
CLS = ['hiop::hiopPDPerturbationPrimalFirstScalar', 'hiop::hiopPDPerturbationPrimalFirstRand', 'hiop::hiopPDPerturbationDualFirstScalar', 'hiop::hiopPDPerturbationDualFirstRand']
for k in CLS: SHAPE[k] = _shape
SHAPE['hiop::hiopPDPerturbation'] = _shape
CT.IMPL['hiop::hiopPDPerturbation'] = CLS[0]
NE, ND, DG = I(0), I(1), I(2)                     # degeneracy: not established, not degenerate, degenerate
NOT, C0W0, CPW0, C0WP, CPWP = [I(i) for i in range(5)]
F = ('wx', 'wd', 'cc', 'cd')
class S_:
    """value of the scalar state"""
    def __init__(s, d): s.__dict__.update(d)
    def cp(s, **kw): r = S_(s.__dict__); r.__dict__.update(kw); return r
def merge(cnd, a, b): return S_({k: (v if v is b.__dict__[k] else ite(cnd, v, b.__dict__[k])) for k, v in a.__dict__.items()})
def load(s):
    d = {}
    for k in F:
        d[k] = g(s, 'delta_%s_curr_db_' % k); d[k + 'l'] = g(s, 'delta_%s_last_db_' % k)
    d.update(h=s.hess_degenerate_, j=s.jac_degenerate_, n=s.num_degen_iters_, t=s.deltas_test_type_)
    return S_(d)
def g(o, n): return getattr(o, n)
def store(s, x, ups, curr=None, last=None):
    """curr/last: {component: condition under which the vector is set to the scalar}"""
    for k in F:
        setattr(s, 'delta_%s_curr_db_' % k, getattr(x, k)); setattr(s, 'delta_%s_last_db_' % k, getattr(x, k + 'l'))
        for w, cnd, val in (('curr', (curr or {}).get(k), getattr(x, k)), ('last', (last or {}).get(k), getattr(x, k + 'l'))):
            if cnd is None: continue
            v = g(s, 'delta_%s_%s_' % (k, w)); A = v.a
            v.a = (lambda cnd, val, A: lambda q: ite(cnd, val, A(q)))(cnd, val, A)
    s.hess_degenerate_ = x.h; s.jac_degenerate_ = x.j; s.num_degen_iters_ = x.n; s.deltas_test_type_ = x.t
    if ups is not None: s.deltas_curr_update_ = ups
def inv(c, s, x):
    c.require(and_(*[le(I(0), v) for v in (x.h, x.j, x.t)], le(x.h, I(2)), le(x.j, I(2)), le(x.t, I(4))), 'enumerations')
    c.require(and_(eq(x.wx, x.wd), eq(x.cc, x.cd), eq(x.wxl, x.wdl), eq(x.ccl, x.cdl)), 'the two halves agree')
    c.require(and_(*[ge(v, R(0)) for v in (x.wx, x.cc, x.wxl, x.ccl)]), 'nonnegative')
    c.require(and_(gt(s.delta_w_0_bar_, R(0)), gt(s.delta_w_min_bar_, R(0)), gt(s.kappa_w_plus_, R(1)), gt(s.kappa_w_plus_bar_, R(1)), gt(s.kappa_w_minus_, R(0)), lt(s.kappa_w_minus_, R(1)), gt(s.delta_c_bar_, R(0)), gt(s.mu_, R(0))), 'parameters')
    c.require(and_(le(s.delta_w_0_bar_, s.delta_w_max_bar_), le(s.delta_w_min_bar_, s.delta_w_max_bar_)))
def post_inv(c, s):
    """the invariant is re-established: halves agree and the vectors hold the scalars"""
    def f(c2, r):
        v = [load(V2(c2, s))][0]
        return and_(eq(v.wx, v.wd), eq(v.cc, v.cd))
    c.ensures.append(('primal and dual halves agree', f))
def V2(c2, s): return c2.wrap(s.ptr, s.cls)
def dc(s): return mul(s.delta_c_bar_, intrin.fpow(s.mu_, s.kappa_c_))
def bump(w, wl, first, lo, s, kp):
    """next regularization from the current (w) and last successful (wl) one"""
    fresh_ = ite(zero(wl), first, maxr(lo, mul(wl, s.kappa_w_minus_)))
    grow = ite(or_(zero(wl), lt(mul(R(100000), wl), w)), mul(s.kappa_w_plus_bar_, w), mul(kp, w))
    return ite(zero(w), fresh_, grow)
def primal(s, x):
    """escalate the primal regularization -> (state, ok)"""
    w = bump(x.wx, x.wxl, s.delta_w_0_bar_, s.delta_w_min_bar_, s, s.kappa_w_plus_)
    ok = le(w, s.delta_w_max_bar_)
    l = ite(ok, x.wxl, R(0))
    return x.cp(wx=w, wd=w, wxl=l, wdl=ite(ok, x.wdl, R(0))), ok
def degen(x):
    """what one more factorization attempt says about structural degeneracy"""
    n1 = add(x.n, I(1)); mx = ge(n1, I(3))
    he, je = eq(x.h, NE), eq(x.j, NE)
    h0 = ite(he, ND, x.h); j0 = ite(je, ND, x.j)
    cases = [(NOT, x), (C0W0, x.cp(h=h0, j=j0)),
             (CPW0, x.cp(h=h0, n=ite(je, n1, x.n), j=ite(and_(je, mx), DG, x.j))),
             (C0WP, x.cp(j=j0, n=ite(he, n1, x.n), h=ite(and_(he, mx), DG, x.h))),
             (CPWP, x.cp(n=n1, h=ite(mx, DG, x.h), j=ite(mx, DG, x.j)))]
    r = x
    for k, v in cases: r = merge(eq(x.t, k), v, r)
    return r
@contract(PB + 'update_degeneracy_type()', cls=CLS[0])
def _(c, s):
    x = load(s); c.require(and_(le(I(0), x.t), le(x.t, I(4)))); c.require(eq(s.num_degen_max_iters_, I(3)))
    store(s, degen(x), None)
def remember(x):
    d = {}
    for k in F: d[k + 'l'] = ite(gt(getattr(x, k), R(0)), getattr(x, k), getattr(x, k + 'l'))
    return x.cp(**d)
ON = {k: TRUE for k in F}
PR_ = {'wx': TRUE, 'wd': TRUE}; DU_ = {'cc': TRUE, 'cd': TRUE}
def when(b, d): return {k: and_(b, v) for k, v in d.items()}
def alt(*ds):
    r = {}
    for d in ds:
        for k, v in d.items(): r[k] = or_(r.get(k, FALSE), v)
    return r
UPD = {'None': I(-2), 'Initialized': I(-1), 'DualUpdate': I(0), 'PrimalUpdate': I(1), 'PDUpdate': I(2)}
@contract(PP + 'guts_of_compute_perturb_wrong_inertia(double&, double&)')
def _(c, s, a, b):
    x = load(s); inv(c, s, x)
    y, ok = primal(s, x)
    store(s, y, UPD['PrimalUpdate'], PR_, when(not_(ok), PR_))
    a.v = y.wx; b.v = y.wd; post_inv(c, s)
    return ok

@contract(PP + 'compute_delta_c(double const&) const')
def _(c, s, mu): return mul(s.delta_c_bar_, intrin.fpow(mu.v, s.kappa_c_))
def initial(c, s, prim, dual, lastfirst):
    x = load(s); inv(c, s, x); c.require(eq(s.num_degen_max_iters_, I(3)))
    x = degen(x); x = remember(x); lastv = x
    return x
def retest(x): return x.cp(t=ite(or_(eq(x.h, NE), eq(x.j, NE)), C0W0, NOT))
@contract(PP + 'compute_initial_deltas()')
def _(c, s):
    x = load(s); inv(c, s, x); c.require(eq(s.num_degen_max_iters_, I(3)))
    x = retest(remember(degen(x)))
    cc = ite(eq(x.j, DG), dc(s), R(0))
    x = x.cp(cc=cc, cd=cc)
    z = x.cp(wx=R(0), wd=R(0)); y, ok = primal(s, z)
    hd = eq(x.h, DG); fail = and_(hd, not_(ok))
    r = merge(hd, y, z)
    setlast(s, x); store(s, r, ite(fail, UPD['PrimalUpdate'], UPD['Initialized']), alt(when(not_(fail), ON), when(fail, PR_)), when(fail, PR_))
    post_inv(c, s)
    return not_(fail)
def setlast(s, x):
    """the vectors of last regularizations take the remembered scalars"""
    for k in F:
        v = g(s, 'delta_%s_last_' % k); val = getattr(x, k + 'l'); v.a = (lambda val: lambda q: val)(val)
@contract(PP + 'compute_perturb_wrong_inertia()')
def _(c, s):
    x = load(s); inv(c, s, x); c.require(eq(s.num_degen_max_iters_, I(3)))
    x = degen(x)
    y, ok = primal(s, x)
    again = and_(not_(ok), zero(y.cc))
    z = y.cp(wx=R(0), wd=R(0), cc=dc(s), cd=dc(s), t=NOT, h=ite(eq(y.h, DG), NE, y.h))
    z2, ok2 = primal(s, z)
    r = merge(again, z2, y)
    store(s, r, ite(again, UPD['PDUpdate'], UPD['PrimalUpdate']), alt(PR_, when(again, ON)), when(or_(not_(ok), and_(again, not_(ok2))), PR_))
    post_inv(c, s)
    return ite(again, ok2, ok)
@contract(PP + 'compute_perturb_singularity()')
def _(c, s):
    x = load(s); inv(c, s, x)
    open_ = or_(eq(x.h, NE), eq(x.j, NE))
    c.require(implies(open_, not_(eq(x.t, NOT))), 'a test is under way')
    c.require(implies(and_(open_, eq(x.t, C0W0), not_(eq(x.j, NE))), zero(x.cc)))
    c.require(implies(and_(open_, eq(x.t, CPW0)), and_(zero(x.wx), gt(x.cc, R(0)), eq(x.j, NE))))
    c.require(implies(and_(open_, eq(x.t, C0WP)), and_(gt(x.wx, R(0)), zero(x.cc))))
    d = dc(s)
    # (condition, state before the primal escalation, escalate the primal part?, test type on success)
    cs = [(and_(open_, eq(x.t, C0W0), eq(x.j, NE)), x.cp(cc=d, cd=d), False, CPW0),
          (and_(open_, eq(x.t, C0W0), not_(eq(x.j, NE))), x, True, C0WP),
          (and_(open_, eq(x.t, CPW0)), x.cp(cc=R(0), cd=R(0)), True, C0WP),
          (and_(open_, eq(x.t, C0WP)), x.cp(cc=d, cd=d), True, CPWP),
          (and_(open_, eq(x.t, CPWP)), x, True, CPWP),
          (and_(not_(open_), gt(x.cc, R(0))), x, True, x.t),
          (and_(not_(open_), not_(gt(x.cc, R(0)))), x.cp(cc=d, cd=d), False, x.t)]
    r = x; ok = TRUE; esc = FALSE
    for cnd, y, e, t in cs:
        if e: y, o = primal(s, y); esc = or_(esc, and_(cnd, not_(o)))
        else: o = TRUE
        y = y.cp(t=ite(o, t, x.t)); r = merge(cnd, y, r); ok = ite(cnd, o, ok)
    store(s, r, UPD['PDUpdate'], ON, when(esc, PR_)); post_inv(c, s)
    return ok
for P_ in (PP, PD):
    @contract(P_ + 'check_consistency()')
    def _(c, s): x = load(s); return and_(eq(x.wx, x.wd), eq(x.cc, x.cd))
    @contract(P_ + 'set_delta_curr_vec(hiop::hiopPDPerturbation::DeltasUpdateType)')
    def _(c, s, t):
        du, pr = eq(t, UPD['DualUpdate']), eq(t, UPD['PrimalUpdate'])
        store(s, load(s), t, alt(when(not_(pr), DU_), when(not_(du), PR_)))
    @contract(P_ + 'set_delta_last_vec(hiop::hiopPDPerturbation::DeltasUpdateType)')
    def _(c, s, t):
        du, pr = eq(t, UPD['DualUpdate']), eq(t, UPD['PrimalUpdate'])
        store(s, load(s), None, None, alt(when(not_(pr), DU_), when(not_(du), PR_)))
# ---- dual regularization first
def dual(s, x, mu):
    cc = bump(x.cc, x.ccl, maxr(s.delta_c_min_bar_, mul(s.delta_c_bar_, intrin.fpow(mu, s.kappa_c_))), s.delta_c_min_bar_, s, s.kappa_c_plus_)
    ok = le(cc, s.delta_w_max_bar_)
    return x.cp(cc=cc, cd=cc, ccl=ite(ok, x.ccl, R(0)), cdl=ite(ok, x.cdl, R(0))), ok
def invd(c, s, x): inv(c, s, x); c.require(and_(gt(s.delta_c_min_bar_, R(0)), gt(s.kappa_c_plus_, R(1)), le(s.delta_c_min_bar_, s.delta_w_max_bar_)))
@contract(PD + 'compute_dual_perturb_impl(double const&)')
def _(c, s, mu):
    x = load(s); invd(c, s, x); y, ok = dual(s, x, mu.v)
    store(s, y, UPD['DualUpdate'], DU_, when(not_(ok), DU_)); post_inv(c, s)
    return ok
@contract(PD + 'compute_primal_perturb_impl()')
def _(c, s):
    x = load(s); invd(c, s, x); y, ok = primal(s, x)
    store(s, y, UPD['PrimalUpdate'], PR_, when(not_(ok), PR_)); post_inv(c, s)
    return ok
@contract(PD + 'compute_initial_deltas()')
def _(c, s):
    x = load(s); invd(c, s, x); c.require(eq(s.num_degen_max_iters_, I(3)))
    x = retest(remember(degen(x))).cp(cc=R(0), cd=R(0))
    y, okd = dual(s, x, s.mu_); jd = eq(x.j, DG); bad1 = and_(jd, not_(okd))
    y = merge(jd, y, x); z = y.cp(wx=R(0), wd=R(0)); w, okp = primal(s, z); hd = eq(x.h, DG)
    bad2 = and_(not_(bad1), hd, not_(okp)); good = not_(or_(bad1, bad2))
    r = merge(bad1, y, merge(hd, w, z))
    store(s, r, ite(bad1, UPD['DualUpdate'], ite(bad2, UPD['PrimalUpdate'], UPD['Initialized'])),
          alt(when(good, ON), when(jd, DU_), when(and_(hd, not_(bad1)), PR_)), alt(when(good, ON), when(bad1, DU_), when(bad2, PR_)))
    post_inv(c, s)
    return good
def dual_wrong(c, s):
    x = load(s); invd(c, s, x); c.require(eq(s.num_degen_max_iters_, I(3)))
    x = degen(x)
    y, ok = dual(s, x, s.mu_)
    again = and_(not_(ok), zero(y.wx))
    z, okp = primal(s, y.cp(cc=R(0), cd=R(0)))
    fail = and_(again, not_(okp))
    z1 = z.cp(t=NOT, j=ite(eq(z.j, DG), NE, z.j)); z2, ok2 = dual(s, z1, s.mu_)
    r = merge(again, merge(fail, z, z2), y)
    # when the primal escalation fails as well, the dual vectors still hold the last attempted value
    dv = {k: ite(fail, y.cc, r.cc) for k in ('cc', 'cd')}
    lastd = or_(not_(ok), and_(again, not_(fail), not_(ok2)))
    store(s, r, ite(fail, UPD['PrimalUpdate'], UPD['DualUpdate']), alt(when(not_(fail), DU_), when(again, PR_)), alt(when(lastd, DU_), when(fail, PR_)))
    for k in ('cc', 'cd'):
        v = g(s, 'delta_%s_curr_' % k); A = v.a; v.a = (lambda A: lambda q: ite(fail, y.cc, A(q)))(A)
    post_inv(c, s)
    return ite(again, and_(not_(fail), ok2), ok)
contract(PD + 'compute_perturb_wrong_inertia()')(dual_wrong)
contract(PD + 'compute_perturb_singularity()')(dual_wrong)
# ---- factorization acceptors
ACLS = ['hiop::hiopFactAcceptorIC', 'hiop::hiopFactAcceptorInertiaFreeDWD']
def _shape_acc(env, b, **kw): b.over['perturb_calc_'] = mkptr(env.obj(CLS[0], 'self.perturb_calc_'))
for k in ACLS: SHAPE[k] = _shape_acc
# ghost counters of requested corrections; the outcome of a request is arbitrary
def request(cell, outcome):
    def h(cx):
        p = ghost(cx.ex.env, cell); v = cx.ex.load(cx.st, p, ('i', 32), cx.mod)
        cx.ex.store(cx.st, p, add(v, I(1)), ('i', 32), cx.mod)
        return cx.ex.env.sym(outcome, 'B')
    return h
REQ = {PP + 'compute_perturb_wrong_inertia()': request('ghost.wrong_inertia', 'correction succeeds'), PP + 'compute_perturb_singularity()': request('ghost.singular', 'regularisation succeeds')}
def requested(c, cell, cnd):
    p = ghost(c.env, cell); v = c.ex.load(c.st, p, ('i', 32), c.mod); c.ex.store(c.st, p, ite(cnd, add(v, I(1)), v), ('i', 32), c.mod)
AC = '::requireReFactorization(hiop::hiopNlpFormulation const&, int const&, bool)'
def verdict(c, wrong, sing):
    """accept (0) unless a correction is needed; then retry (1) if the correction could be computed, else give up (-1)"""
    requested(c, 'ghost.wrong_inertia', wrong); requested(c, 'ghost.singular', sing)
    a, b = c.env.sym('correction succeeds', 'B'), c.env.sym('regularisation succeeds', 'B')
    return ite(sing, ite(b, I(1), I(-1)), ite(wrong, ite(a, I(1), I(-1)), I(0)))
@contract(ACLS[0] + AC, calls=REQ)
def _(c, s, nlp, neg, force):
    q, n = s.n_required_neg_eig_, neg.v; c.require(ge(q, I(0)))
    sing = and_(gt(q, I(0)), lt(n, I(0)))
    return verdict(c, and_(not_(sing), not_(eq(n, q))), sing)
@contract(ACLS[1] + AC, calls=REQ)
def _(c, s, nlp, neg, force):
    q, n = s.n_required_neg_eig_, neg.v; c.require(ge(q, I(0)))
    sing = and_(gt(q, I(0)), lt(n, I(0)))
    return verdict(c, and_(not_(sing), or_(lt(n, I(0)), force)), sing)
PR = 'hiop::hiopPDPerturbationPrimalFirstRand::'; PDR = 'hiop::hiopPDPerturbationDualFirstRand::'
ALL = [n for n in REG if n.startswith((PB, PP, PD) + tuple(ACLS))]

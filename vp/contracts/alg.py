"""Contracts of hiopAlgFilterIPMBase: acceptance of trial points, barrier parameter update, error measures, termination."""
from .base import *
from . import iterate as ITR, residual as RES, filter as FLT, dense as DEN
from . import nlp as NLP
from .nlp import opt, num, inum, isopt
from .iterate import g
SRC = RES.SRC + ['Optimization/hiopFilter.cpp', 'Optimization/hiopNlpTransforms.cpp']
P = 'hiop::hiopAlgFilterIPMBase::'
A_ = 'hiop::hiopAlgFilterIPMBase'
# ------------------------------------------------------------- shape
STATUS = dict(Solve_Success=0, Solve_Success_RelTol=1, Solve_Acceptable_Level=2, Infeasible_Problem=5, Iterates_Diverging=6, Feasible_Not_Optimal=7, Max_Iter_Exceeded=10)
def shape_alg(env, b, **kw):
    N = the_nlp(env)
    b.over['nlp'] = N
    it = mkptr(env.obj('hiop::hiopIterate', 'it')); b.over['it_curr'] = it
    b.over['it_trial'] = mkptr(env.obj('hiop::hiopIterate', 'trial')); b.over['dir'] = mkptr(env.obj('hiop::hiopIterate', 'dir'))
    b.over['soc_dir'] = mkptr(env.obj('hiop::hiopIterate', 'socdir'))
    for m, k in dict(_c='c', _d='d', _c_trial='c', _d_trial='d', c_soc='c', d_soc='d', _grad_f='x', _grad_f_trial='x').items(): b.over[m] = KIND[k](env, b.name + '.' + m)
    for m, k in dict(_Jac_c='c', _Jac_d='d').items(): b.over[m] = RES.jac(env, b.name + '.' + m, k)
    l = env.obj('hiop::hiopLogBarProblem', 'logbar'); l.over['iter'] = it; b.over['logbar'] = mkptr(l)
    b.over['resid'] = mkptr(env.obj('hiop::hiopResidual', 'resid')); b.over['resid_trial'] = mkptr(env.obj('hiop::hiopResidual', 'residtrial'))
    FLT.filter_state(env, b, b.members['filter'][0], 'filter')
SHAPE[A_] = shape_alg
SHAPE['hiop::hiopAlgFilterIPMNewton'] = SHAPE['hiop::hiopAlgFilterIPMQuasiNewton'] = shape_alg
CT.IMPL[A_] = 'hiop::hiopAlgFilterIPMNewton'
# ------------------------------------------------------------- acceptance of trial points
def decrease(s, th, tt):
    """sufficient decrease in the infeasibility or in the barrier function"""
    lb = s.logbar
    return or_(le(tt, mul(sub(R(1), s.gamma_theta), th)), le(lb.f_logbar_trial, sub(lb.f_logbar, mul(s.gamma_phi, th))))
@contract(P + 'accept_line_search_conditions(double, double, double, bool&, double&)')
def _(c, s, th, tt, al, done, gr):
    lb = s.logbar
    far = ge(th, s.theta_min)
    dd = done.v; D = s.dir
    gv = ite(dd, gr.v, add(RES.dot(D.x, lb._grad_x_logbar), RES.dot(D.d, lb._grad_d_logbar)))
    switch = and_(lt(gv, R(0)), gt(mul(al, intrin.fpow(neg(gv), s.s_phi)), mul(s.delta, intrin.fpow(th, s.s_theta))))
    armijo = le(lb.f_logbar_trial, add(lb.f_logbar, mul(mul(s.eta_phi, al), gv)))
    suff = decrease(s, th, tt)
    st = ite(far, ite(suff, I(1), I(0)), ite(switch, ite(armijo, I(3), I(0)), ite(suff, I(2), I(0))))
    bad = s.filter.contains(tt, lb.f_logbar_trial)
    s.trial_is_rejected_by_filter = and_(not_(eq(st, I(0))), bad)
    d0, g0 = done.v, gr.v
    done.v = ite(far, d0, TRUE); gr.v = ite(far, g0, gv)
    return ite(bad, I(0), st)
@contract(P + 'ensure_moving_lims(hiop::hiopIterate const&, hiop::hiopIterate const&, double&)')
def _(c, s, it, d, al):
    rel, ab = num(c, 'moving_lim_rel'), num(c, 'moving_lim_abs'); a = al.v
    c.require(gt(a, R(0))); c.require(le(a, R(1)))
    nr = AllMax(RES.fnorm(d.x.n, d.x.a)); st = mul(a, nr)
    over = gt(st, ab); useab = and_(gt(ab, R(0)), over)
    al.v = ite(gt(rel, R(0)), mul(rel, a), ite(useab, div(ab, nr), a))
    return or_(gt(rel, R(0)), useab)
ACCEPT = [n for n in REG if n.startswith(P)] + FLT.ALL
# ------------------------------------------------------------- termination
@contract(P + 'checkTermination(double const&, int const&, hiop::hiopSolveStatus&)')
def _(c, s, err, it, status):
    err, it = err.v, it.v
    ok = and_(le(err, s.eps_tol), le(s._err_nlp_optim, s.dual_tol_), le(s._err_cons_violation, s.cons_tol_), le(s._err_nlp_complem, s.comp_tol_))
    mx = ge(it, s.max_n_it)
    rt = s.eps_rtol
    rel = and_(gt(rt, R(0)), le(s._err_nlp_optim, mul(rt, s._err_nlp_optim0)), le(s._err_nlp_feas, mul(rt, s._err_nlp_feas0)),
               le(s._err_nlp_complem, mul(maxr(rt, R(Fraction(1e-6))), minr(R(1), s._err_nlp_complem0))))
    early = or_(ok, mx, rel)
    n = ite(early, s.n_accep_iters_, ite(le(err, s.eps_tol_accep), add(s.n_accep_iters_, I(1)), I(0)))
    acc = and_(not_(early), ge(n, s.accep_n_it))
    s.n_accep_iters_ = n
    s.solver_status_ = ite(ok, I(STATUS['Solve_Success']), ite(mx, I(STATUS['Max_Iter_Exceeded']), ite(rel, I(STATUS['Solve_Success_RelTol']), ite(acc, I(STATUS['Solve_Acceptable_Level']), s.solver_status_))))
    return or_(early, acc)
D8 = 'double&, double&, double&, double&'
@contract(P + 'evalNlpAndLogErrors(hiop::hiopIterate const&, hiop::hiopResidual const&, double const&, %s, %s, double&)' % (D8, D8), init=lambda env: the_nlp(env))
def _(c, s, it, rs, mu, o1, f1, c1, a1, o2, f2, c2, a2, cv_):
    N = s.nlp; ITR.inv_patterns(c, it, ITR.DUALS)
    e, b = add(ITR.l1(it.yc), ITR.l1(it.yd)), ITR.nbd(it)
    n = add(add(N.n_ineq_low_, N.n_ineq_upp_), add(N.n_bnds_low_, N.n_bnds_upp_)); m = add(N.n_cons_eq_, N.n_cons_ineq_)
    for k in (N.n_ineq_low_, N.n_ineq_upp_, N.n_bnds_low_, N.n_bnds_upp_): c.require(ge(k, I(0)))
    c.require(gt(n, I(0)), 'there is at least one bound'); c.require(gt(s.p_smax, R(0)))
    cap = R(10**8); ps = s.p_smax
    sd = minr(cap, div(maxr(ps, div(add(b, e), toreal(add(n, m)))), ps)); sc = minr(cap, div(maxr(ps, div(b, toreal(n))), ps))
    V_ = rs.nrmInf_cons_violation; cv_.v = V_
    o1.v, f1.v, c1.v = rs.nrmInf_nlp_optim, rs.nrmInf_nlp_feasib, rs.nrmInf_nlp_complem
    o2.v, f2.v, c2.v = rs.nrmInf_bar_optim, rs.nrmInf_bar_feasib, rs.nrmInf_bar_complem
    a1.v = maxr(div(rs.nrmInf_nlp_optim, sd), maxr(V_, div(rs.nrmInf_nlp_complem, sc)))
    a2.v = maxr(div(rs.nrmInf_bar_optim, sd), maxr(V_, div(rs.nrmInf_bar_complem, sc)))
    return TRUE
@contract(P + 'thetaLogBarrier(hiop::hiopIterate const&, hiop::hiopResidual const&, double const&)')
def _(c, s, it, rs, mu): return rs.nrmInf_nlp_feasib
TERM = [P + x for x in ('checkTermination(double const&, int const&, hiop::hiopSolveStatus&)', 'evalNlpAndLogErrors(hiop::hiopIterate const&, hiop::hiopResidual const&, double const&, %s, %s, double&)' % (D8, D8), 'thetaLogBarrier(hiop::hiopIterate const&, hiop::hiopResidual const&, double const&)')]
# ------------------------------------------------------------- barrier parameter
def mu_rule(c, s, mu):
    """(next mu, changed)"""
    floor = div(minr(s.eps_tol, div(s.comp_tol_, NLP.obj_scale(c, s.nlp))), R(11))
    new = maxr(maxr(R(0), minr(mul(s.kappa_mu, mu), intrin.fpow(mu, s.theta_mu))), floor)
    return new, ge(absr(sub(new, mu)), R(Fraction(1e-16)))
@contract(P + 'update_log_barrier_params(hiop::hiopIterate&, double const&, double const&, bool const&, double&, double&)')
def _(c, s, it, mu, tau, el, mun, taun):
    N = s.nlp; new, ch = mu_rule(c, s, mu.v); on = el.v
    mun.v = ite(ch, new, mun.v); taun.v = ite(ch, maxr(s.tau_min, sub(R(1), new)), taun.v)
    E = lambda x: c.require(implies(on, x))
    c.when(on, lambda: (ITR.safe_req(c, it, it, new), RES.counts(c, N), [matches(c, g(s.resid, ms[0]), g(N, p)) for p, ms in RES.RB.items()], ITR.inv_patterns(c, it, ITR.DUALS)))
    E(gt(s.kappa_Sigma, R(1)))
    c.when(and_(ch, on), lambda: tighten(c, s, it, new))
    return ch
def tighten(c, s, it, mu):
    """elastic mode: bounds relaxed by an amount tied to mu, slacks and duals corrected"""
    N = s.nlp; lo, hi = num(c, 'elastic_mode_bound_relax_final'), num(c, 'elastic_mode_bound_relax_initial'); tg = s.eps_tol
    proj_ = add(mul(div(sub(mu, tg), sub(s.mu0, tg)), sub(hi, lo)), lo)
    p = ite(isopt(c, 'elastic_bound_strategy', 'mu_scaled'), mul(R(Fraction(0.995)), mu), ite(isopt(c, 'elastic_bound_strategy', 'mu_projected'), proj_, hi))
    NLP.reset_bounds(c, N, maxr(minr(p, hi), lo))
    tight, adj = isopt(c, 'elastic_mode', 'tighten_bound'), isopt(c, 'elastic_mode', 'correct_it_adjust_bound')
    c.require(or_(tight, adj, isopt(c, 'elastic_mode', 'correct_it')), 'known elastic mode')
    def correct():
        n = c.effect(ITR.P + 'compute_safe_slacks(%s, double const&)' % ITR.IT, it, it, Val(mu))
        def more():
            c.when(adj, lambda: c.effect(NLP.P + 'adjust_bounds(hiop::hiopIterate const&)', N, it))
            c.effect(ITR.P + 'adjustDuals_primalLogHessian(double const&, double const&)', it, Val(mu), Val(s.kappa_Sigma))
        c.when(gt(n, I(0)), more)
    c.when(not_(tight), correct)
    c.effect(RES.P + 'compute_nlp_infeasib_onenorm(%s, %s, %s)' % (RES.IT, RES.VC, RES.VC), s.resid, s.it_trial, s._c_trial, s._d_trial)
MU = [n for n in REG if n.startswith(P) and 'update_log_barrier_params' in n]
ALL = [n for n in REG if n.startswith(P)] + FLT.ALL

"""Contracts of the primal decomposition: the quadratic recourse approximation, its curvature estimates, and the stopping rule."""
from .base import *
from . import factory as FAC, nlp as NLP
SRC = FAC.SRC + ['Interface/hiopInterfacePrimalDecomp.cpp', 'Optimization/hiopAlgPrimalDecomp.cpp']
RC = 'hiop::hiopInterfacePriDecProblem::RecourseApproxEvaluator'; E_ = RC + '::'
AC = 'hiop::hiopAlgPrimalDecomposition'; HC = AC + '::HessianApprox'; H_ = HC + '::'
V, VI = 'hiop::hiopVector const&', 'hiop::hiopVectorInt const&'
STR = FAC.STR
ALL = []
def K(name, **kw):
    def d(f): ALL.append(name); return contract(name, **kw)(f)
    return d
def nc(env, k='nc'):
    n = env.sym(k, 'I'); env.fact(ge(n, I(0))); return n
def vn(k): return lambda env, nm, args: vec(env, nm, nc(env, k))
def raw(k): return lambda env, nm, args: mkptr(env.darr(nm, nc(env, k)))
# ------------------------------------------------------------------------- recourse approximation
def shape_rec(env, b, **kw):
    n = nc(env); env.set(b, 'nc_', n)
    for k in ('rgrad_', 'rhess_', 'x0_'): b.over[k] = vec(env, b.name + '.' + k, n)
    b.over['vec_work_coupling_'] = scratch(env, vec(env, b.name + '.work', n))
    b.over['vec_work_basecase_'] = maybe(env, b.name + '.base', scratch(env, vec(env, b.name + '.basework', nc(env, 'nx'))))
    b.over['xc_idx_'] = mkptr(env.obj('hiop::hiopVectorIntSeq', b.name + '.xc_idx_', n=n))
SHAPE[RC] = shape_rec
CT.IGNORE[RC] = ['vec_work_coupling_', 'vec_work_basecase_']

def space_ok(c, p): c.require(eq(FAC.upper(intrin.sread(c, p)), intrin.strid('DEFAULT')), 'host memory space')
def member(s, m): return pshift(s.ptr, I(s._mem(m)[0]))
def hostspace(c, s): space_ok(c, member(s, 'mem_space_'))
def coupled(c, s, n):
    """index map of the coupling variables into the n variables of the master"""
    ix = s.xc_idx_.a; VEC.inrange(c, ix, s.nc_, n); return ix
def sized(c, n, x):
    if c.mode == 'verify': c.require(eq(n.v, x.ptr.base.length), 'n is the number of variables')
@K(E_ + 'eval_f(int const&, double const*, bool, double&)', args={1: raw('nx')})
def _(c, s, n, x, new, f):
    sized(c, n, x)
    ix, X, x0, g, h = coupled(c, s, n.v), x.snap(), s.x0_.a, s.rgrad_.a, s.rhess_.a
    d = lambda i: sub(X(ix(i)), x0(i))
    f.v = add(add(add(f.v, s.rval_), VEC.AllSum(Sum(s.nc_, lambda i: mul(d(i), g(i))))), mul(R(Fraction(1, 2)), VEC.AllSum(Sum(s.nc_, lambda i: mul(mul(d(i), d(i)), h(i))))))
    return TRUE
@K(E_ + 'eval_grad(int const&, double const*, bool, double*)', args={1: raw('nx'), 3: raw('nx')})
def _(c, s, n, x, new, g):
    sized(c, n, x); hostspace(c, s); c.require(le(s.nc_, n.v))
    ix, X, x0, gr, h, G = coupled(c, s, n.v), x.snap(), s.x0_.a, s.rgrad_.a, s.rhess_.a, g.snap()
    w = lambda i: add(mul(sub(X(ix(i)), x0(i)), h(i)), gr(i))
    g.write(n.v, lambda j: add(G(j), Sum(s.nc_, lambda i: ite(eq(ix(i), j), w(i), R(0)))))
    return TRUE
@K(E_ + 'eval_hess(int const&, %s, bool, hiop::hiopVector&)' % V, args={1: vn('nx'), 3: vn('nc')})
def _(c, s, n, x, new, h):
    c.require(eq(h.n, s.nc_)); A, B = h.a, s.rhess_.a; h.a = lambda j: add(A(j), B(j)); return TRUE
@K(E_ + 'set_rval(double)')
def _(c, s, v): s.rval_ = v
def setter(m, name):
    @K(E_ + '%s(int, %s)' % (name, V), args={1: vn('nv')})
    def _(c, s, n, v):
        c.require(and_(eq(n, s.nc_), ge(v.n, n)), 'sizes'); c.require(eq(v.n, v.n_))
        getattr(s, m).a = v.a
for m in ('rgrad', 'rhess', 'x0'): setter(m + '_', 'set_' + m)
@K(E_ + 'get_rval() const')
def _(c, s): return s.rval_
@K(E_ + 'get_S() const')
def _(c, s): return s.S_
def getter(m):
    @K(E_ + 'get_%s() const' % m)
    def _(c, s): return FAC.getp(c, s, m + '_')
for m in ('rgrad', 'rhess', 'x0'): getter(m)
def newvec(c, n): v = c.new(FAC.VP); FAC.vinit(c, v, n, Arr(c, NULL, 'I', 4), mkptr(c.ex.gblock('ompi_mpi_comm_self'))); return v
def build(c, s, n, S_, mem, rval=None, given=None, lst=None):
    space_ok(c, mem); c.require(ge(n, I(0)), 'number of coupling variables')
    FAC.vt(c, s, RC); s.nc_ = n; s.S_ = S_; s.rval_ = R(0) if rval is None else rval
    vs = {k: newvec(c, n) for k in ('rgrad_', 'rhess_', 'x0_', 'vec_work_coupling_')}
    for k, v in zip(('rgrad_', 'rhess_', 'x0_'), given or ()):
        c.require(and_(ge(v.n, n), eq(v.n, v.n_)), 'sizes'); vs[k].a = v.a
    for k, v in vs.items(): FAC.setp(c, s, k, v.ptr)
    FAC.setp(c, s, 'vec_work_basecase_', NULL)
    ix = c.new(FAC.IP); ix.sz_ = n; FAC.setp(c, ix, 'buf_', mkptr(c.newarr(n, 'I')))
    ix.a = (lambda j: j) if lst is None else lst.snap()
    FAC.setp(c, s, 'xc_idx_', ix.ptr); intrin.swrite(c, member(s, 'mem_space_'), intrin.sread(c, mem))
ilist = lambda k: lambda env, nm, args: mkptr(env.darr(nm, nc(env, k), 'I', 4))
icol = lambda c, p: Arr(c, p, 'I', 4)
me = {'this': FAC.raw(RC)}
def ilen(c, n, l): c.require(eq(n, l.ptr.base.length)) if c.mode == 'verify' else None
@K(E_ + 'RecourseApproxEvaluator(int, %s const&)' % STR, args=me)
def _(c, s, n, mem): build(c, s, n, n, mem)
@K(E_ + 'RecourseApproxEvaluator(int, int, %s const&)' % STR, args=me)
def _(c, s, n, S_, mem): c.require(ge(S_, n)); build(c, s, n, S_, mem)
@K(E_ + 'RecourseApproxEvaluator(int, int, int const*, %s const&)' % STR, args={**me, 2: ilist('nl')}, wrap={2: icol})
def _(c, s, n, S_, l, mem): ilen(c, n, l); build(c, s, n, S_, mem, lst=l)
@K(E_ + 'RecourseApproxEvaluator(int, int, double const&, %s, %s, %s, %s const&)' % (V, V, V, STR), args={**me, **{k: vn("nv%d" % k) for k in (3, 4, 5)}})
def _(c, s, n, S_, f, g, h, x, mem): build(c, s, n, S_, mem, f.v, (g, h, x))
@K(E_ + 'RecourseApproxEvaluator(int, int, int const*, double const&, %s, %s, %s, %s const&)' % (V, V, V, STR), args={**me, 2: ilist('nl'), 4: vn('nv4'), 5: vn('nv5'), 6: vn('nv6')}, wrap={2: icol})
def _(c, s, n, S_, l, f, g, h, x, mem): ilen(c, n, l); build(c, s, n, S_, mem, f.v, (g, h, x), l)
# ------------------------------------------------------------------------- curvature of the approximation
def shape_hess(env, b, **kw):
    n = nc(env); env.set(b, 'n_', n)
    for k in ('xkm1', 'gkm1', 'skm1', 'ykm1'): b.over[k] = vec(env, b.name + '.' + k, n)
SHAPE[HC] = shape_hess
def clamp(lo, hi, x): return minr(hi, maxr(lo, x))
def sq(s): t = VEC.sqrt(VEC.AllSum(VEC.sumsq(s))); return mul(t, t)
def dot(c, a, b): A, B = a.a, b.a; return VEC.AllSum(Sum(a.n, lambda i: mul(A(i), B(i))))
def nrm(v): return VEC.sqrt(VEC.AllSum(VEC.sumsq(v)))
@K(H_ + 'set_n(int)')
def _(c, s, n): s.n_ = n
for m in ('xkm1', 'gkm1'):
    def _(c, s, v, m=m):
        c.require(and_(ge(v.n, s.n_)), 'sizes'); getattr(s, m).a = v.a
    K(H_ + 'set_%s(%s)' % (m, V), args={0: vn('nv')})(_)
@K(H_ + 'initialize(double, %s, %s)' % (V, V), args={1: vn('nv'), 2: vn('nv')})
def _(c, s, f, x, g):
    c.require(ge(x.n, s.n_)); c.require(ge(g.n, s.n_)); s.fk = f; s.xkm1.a = x.a; s.gkm1.a = g.a
@K(H_ + 'update_hess_coeff(%s, %s, double const&)' % (V, V), args={0: vn('nc'), 1: vn('nc')})
def _(c, s, x, g, f):
    c.require(and_(eq(x.n, s.n_), eq(g.n, s.n_)), 'sizes')
    X, G, X1, G1 = x.a, g.a, s.xkm1.a, s.gkm1.a
    s.fkm1 = s.fk; s.fk = f.v
    s.skm1.a = lambda i: sub(X(i), X1(i)); s.ykm1.a = lambda i: sub(G(i), G1(i)); s.xkm1.a = X
    s.fkm1_lin = VEC.AllSum(Sum(s.n_, lambda i: mul(G1(i), sub(X(i), X1(i))))); s.gkm1.a = G
def ratio_rule5(s, rho, f1, f0, ag, a):
    q, dec, inc = R(Fraction(3, 4)), gt(sub(f1, f0), R(0)), lt(sub(f1, f0), R(0))
    big = R(Fraction(1.333))
    up = or_(and_(gt(rho, R(0)), lt(rho, R(Fraction(1, 4))), dec), and_(lt(rho, R(0)), inc))
    dn = and_(gt(rho, q), lt(rho, big), dec, gt(ag, R(Fraction(0.1))))
    up2 = and_(gt(rho, big), inc)
    return clamp(s.ratio_min, s.ratio_max, ite(up, div(a, q), ite(dn, mul(a, q), ite(up2, div(a, q), a))))
def ratio_rule(s, rho, a):
    q = R(Fraction(3, 4)); return clamp(s.ratio_min, s.ratio_max, ite(lt(rho, R(Fraction(1, 4))), div(a, q), ite(gt(rho, q), mul(a, q), a)))
@K(H_ + 'update_ratio_tr(double, double, double, double, double&)')
def _(c, s, rho, f1, f0, ag, a):
    a.v = ratio_rule5(s, rho, f1, f0, ag, a.v)
    c.ensures.append(('within its bounds', lambda c2, r: implies(le(s.ratio_min, s.ratio_max), and_(le(s.ratio_min, a.v), le(a.v, s.ratio_max))))) if c.mode == 'verify' else None
@K(H_ + 'update_ratio_tr(double, double&)')
def _(c, s, rho, a): a.v = ratio_rule(s, rho, a.v)
def half(s): return mul(mul(mul(R(Fraction(1, 2)), s.alpha_), nrm(s.skm1)), nrm(s.skm1))
def model(s): return add(add(s.fkm1, s.fkm1_lin), half(s))
@K(H_ + 'update_ratio()')
def _(c, s):
    rho = div(sub(s.fkm1, s.fk), sub(s.fkm1, model(s))); qn = mul(s.alpha_, dot(c, s.skm1, s.skm1))
    s.ratio_ = ratio_rule5(s, rho, s.fkm1, s.fk, div(qn, absr(s.fkm1_lin)), s.ratio_)
@K(H_ + 'update_ratio(double, double)')
def _(c, s, b, b1):
    rho = div(sub(sub(add(b1, s.fkm1), s.fk), b), sub(sub(add(s.fkm1, b1), model(s)), b)); s.ratio_ = ratio_rule(s, rho, s.ratio_)
@K(H_ + 'get_alpha_BB()')
def _(c, s): a = clamp(s.alpha_min, s.alpha_max, div(dot(c, s.skm1, s.ykm1), dot(c, s.skm1, s.skm1))); s.alpha_ = a; return a
@K(H_ + 'get_alpha_f(%s)' % V, args={0: vn('nc')})
def _(c, s, g):
    a = clamp(s.alpha_min, s.alpha_max, mul(div(div(mul(nrm(g), nrm(g)), R(2)), s.fk), s.ratio_)); s.alpha_ = a; return a
@K(H_ + 'get_alpha_tr()')
def _(c, s): a = clamp(s.alpha_min, s.alpha_max, mul(s.alpha_, s.tr_ratio_)); s.alpha_ = a; return a
@K(H_ + 'check_convergence_grad(%s)' % V, args={0: vn('nc')})
def _(c, s, g):
    S1, Y1, al = s.skm1.a, s.ykm1.a, s.alpha_
    t = VEC.sqrt(VEC.AllSum(Sum(s.skm1.n, lambda i: mul(sub(Y1(i), mul(al, S1(i))), sub(Y1(i), mul(al, S1(i)))))))
    return div(t, nrm(g))
@K(H_ + 'check_convergence_fcn(double, double)')
def _(c, s, b, b1): return absr(add(add(s.fkm1_lin, half(s)), sub(b, b1)))
@K(H_ + 'compute_base(double)')
def _(c, s, v): return sub(v, model(s))
@K(H_ + 'set_verbosity(int)')
def _(c, s, i): c.require(and_(ge(i, I(0)), le(i, I(3)))); s.ver_ = i
for m, f in (('ratio_min', 'set_alpha_ratio_min'), ('ratio_max', 'set_alpha_ratio_max'), ('alpha_min', 'set_alpha_min'), ('alpha_max', 'set_alpha_max')):
    def _(c, s, v, m=m): setattr(s, m, v)
    K(H_ + f + '(double)')(_)
# ------------------------------------------------------------------------- the decomposition
A_ = AC + '::'
@K(A_ + 'stopping_criteria(int, double, int)')
def _(c, s, it, cg, n): return or_(lt(cg, s.tol_), eq(it, sub(s.max_iter_, I(1))), eq(n, s.accp_count_))
@K(A_ + 'step_size_inf(int, %s, %s, %s)' % (VI, V, V), args={1: lambda env, nm, args: mkptr(env.obj('hiop::hiopVectorIntSeq', nm, n=nc(env))), 2: vn('nx'), 3: vn('nc')})
def _(c, s, n, ix, x, x0):
    K_, X, X0 = ix.a, x.a, x0.a; VEC.inrange(c, K_, ix.n, x.n)
    return VEC.sqrt(VEC.AllSum(Sum(x0.n, lambda i: mul(sub(X(K_(i)), X0(i)), sub(X(K_(i)), X0(i))))))
for m, f, t in (('max_iter_', 'set_max_iteration', 'int'), ('tol_', 'set_tolerance', 'double'), ('accp_tol_', 'set_acceptable_tolerance', 'double'), ('accp_count_', 'set_acceptable_count', 'int'), ('alpha_min_', 'set_alpha_min', 'double'), ('alpha_max_', 'set_alpha_max', 'double')):
    def _(c, s, v, m=m): setattr(s, m, v)
    K(A_ + f + '(%s)' % t)(_)
@K(A_ + 'set_initial_alpha_ratio(double)')
def _(c, s, a): c.require(and_(ge(a, R(0)), lt(a, R(10)))); s.alpha_ratio_ = a
@K(A_ + 'getNumIterations() const')
def _(c, s): return s.it_

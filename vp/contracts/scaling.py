"""Contracts of the computation of the scaling factors and of their installation in the problem."""
from .base import *
from ..sym import PtrCol
from . import dense as DEN, nlp as NLP, transforms as TRF, factory as FAC, evals as EVL, process as PRC
from .transforms import SC, TR, VARIANTS, uspace, ksc, distjac, kjac, pick
from .nlp import num, inum, isopt, self_nlp
SRC = EVL.SRC
P = NLP.P
V1, M1 = 'hiop::hiopVector&', 'hiop::hiopMatrix&'
ALL = []
def K(name, **kw):
    def d(f): ALL.append(name); return contract(name, **kw)(f)
    return d
def rowmax(J):
    A, n = J.a, J.n
    return lambda i: AllMax(Fold(n, R(0), lambda q, j: maxr(q, absr(A(i, j)))))
def infn(f, n): return AllMax(Max(n, R(0), lambda i: absr(f(i))))
def factors(c, J, n, glob):
    """factors of the rows of a Jacobian"""
    mx, mn, mc = num(c, 'scaling_max_grad'), num(c, 'scaling_min_grad'), num(c, 'scaling_max_con_grad')
    r = rowmax(J); N = infn(r, n)
    auto = lambda i: ite(gt(N, mx), div(R(1), maxr(mul(div(R(1), mx), r(i)), R(1))), R(1))
    f = lambda i: ite(zero(mc), auto(i), div(mc, N))
    return lambda i: ite(gt(mn, R(0)), maxr(f(i), mn), f(i))
def objfactor(c, g):
    mx, mn, mo = num(c, 'scaling_max_grad'), num(c, 'scaling_min_grad'), num(c, 'scaling_max_obj_grad')
    G = infn(g.a, g.n)
    f = ite(zero(mo), ite(gt(G, mx), div(mx, G), R(1)), ite(gt(G, R(0)), div(mo, G), R(1)))
    return ite(and_(gt(mn, R(0)), lt(f, mn)), mn, f)
def new_cd(c, n): return EVL.newvec(c, n)
def scatter(c, v, n, fc, me, em, fd, mi, im):
    E, N = em.a, im.a
    def f(j):
        a, b = Last(me, lambda i: eq(E(i), j)), Last(mi, lambda i: eq(N(i), j))
        return ite(ge(b, I(0)), fd(b), fc(a))
    v.a = f
CW = VEC.P + 'copy_from_two_vec_w_pattern(hiop::hiopVector const&, %s, hiop::hiopVector const&, %s)' % (VEC.VI, VEC.VI)
def build(c, s, nlp, cc, dd, g, Jc, Jd, em, im):
    me, mi = cc.n, dd.n
    c.require(gt(num(c, 'scaling_max_grad'), R(0)), 'positive bound on the gradients'); c.require(ge(num(c, 'scaling_min_grad'), R(0)), 'option range'); c.require(ge(num(c, 'scaling_max_obj_grad'), R(0)), 'option range'); c.require(ge(num(c, 'scaling_max_con_grad'), R(0)), 'option range')
    c.require(and_(eq(Jc.m, me), eq(Jd.m, mi), eq(cc.n, cc.n_), eq(dd.n, dd.n_), eq(em.n, me), eq(im.n, mi)), 'sizes')
    nc = add(me, mi)
    for m in (em, im):
        A = m.a; c.require(Forall(m.n, lambda i: and_(le(I(0), A(i)), lt(A(i), nc))), 'constraint indexes')
    A, B = em.a, im.a
    c.require(Forall(nc, lambda j: or_(ge(Last(me, lambda i: eq(A(i), j)), I(0)), ge(Last(mi, lambda i: eq(B(i), j)), I(0)))), 'every constraint in a mapping')
    FAC.setp(c, s, 'nlp_', nlp.ptr if isinstance(nlp, View) else nlp); s.n_vars = g.n_; s.n_vars_local = g.n; s.n_eq = me; s.n_ineq = mi
    s.scale_factor_obj = objfactor(c, g)
    fs = []
    for m, src, J, n in (('scale_factor_c', cc, Jc, me), ('scale_factor_d', dd, Jd, mi)):
        v = VEC._mkvec(c, src, False); v.a = factors(c, J, n, src); setattr(s, m, v); fs.append(v)
    v = EVL.newvec(c, nc); s.scale_factor_cd = v
    c.effect(CW, v, fs[0], em, fs[1], im)
CTOR = SC + '::hiopNLPObjGradScaling(hiop::hiopNlpFormulation*, %s, %s, %s, %s, %s, hiop::hiopVectorInt&, hiop::hiopVectorInt&)' % (V1, V1, V1, M1, M1)
def kmap(k): return lambda env, nm, args: EVL.mapping(env, nm, k)
# factors do not exceed one, and bring every row (and the gradient) down to the largest allowed value, when the targets are left at their default
def bounded(c, s):
    ps = [num(c, k) for k in ('scaling_max_obj_grad', 'scaling_max_con_grad', 'scaling_min_grad')]
    return and_(*[zero(p) for p in ps])
@K(CTOR, args={'this': FAC.raw(SC), 0: lambda env, nm, args: the_nlp(env), 1: ksc('c'), 2: ksc('d'), 3: kvec('x'), 4: kjac('c', 0), 5: kjac('d', 0), 6: kmap('c'), 7: kmap('d')}, cost=50, split=4)
def _(c, s, nlp, cc, dd, g, Jc, Jd, em, im):
    FAC.vt(c, s, SC); build(c, s, nlp, cc, dd, g, Jc, Jd, em, im)
    if c.mode == 'verify':
        dflt = bounded(c, s); mx = num(c, 'scaling_max_grad'); pick_ = {}
        for w, J, n in (('c', Jc, cc.n), ('d', Jd, dd.n)):
            i = fresh('row', 'I'); r = rowmax(J)
            def e(c2, _, w=w, i=i, r=r, n=n):
                f = getattr(c2.wrap(s.ptr, SC), 'scale_factor_' + w).a(i)
                return implies(and_(dflt, le(I(0), i), lt(i, n)), and_(le(f, R(1)), gt(f, R(0))))
            c.ensures.append(('default scaling factors of %s are in (0,1]' % w, e))
            def e2(c2, _, w=w, i=i, r=r, n=n):
                f = getattr(c2.wrap(s.ptr, SC), 'scale_factor_' + w).a(i)
                return implies(and_(dflt, le(I(0), i), lt(i, n), gt(infn(r, n), mx)), le(mul(f, r(i)), mx))
            c.ensures.append(('default scaling factors of %s bound the scaled gradients' % w, e2))
        G = infn(g.a, g.n)
        c.ensures.append(('default objective factor is in (0,1] and bounds the scaled gradient', lambda c2, _: implies(dflt, (lambda f: and_(gt(f, R(0)), le(f, R(1)), le(mul(f, G), mx)))(c2.wrap(s.ptr, SC).scale_factor_obj))))
def append(c, s, v):
    """one more transformation at the end of the list"""
    o = c.env.members(TR)['list_trans_'][0]; L = pshift(s.nlp_transformations_.ptr, I(o)); ex = c.ex
    n = cv(ex.load(c.st, pshift(L, I(16)), ('i', 64), c.mod)); p = toptr(ex.load(c.st, L, ('ptr',), c.mod)); b = p.base
    ct = c.st.wr(b); f0 = ex.col(c.st, b, 0, ('ptr',), 8).f
    ct.cols[0] = (8, PtrCol(lambda i: S.ptr_ite(eq(I(i), I(n)), v.ptr, f0(i))))
    ex.store(c.st, pshift(L, I(16)), I(n + 1), ('i', 64), c.mod)
NOSC = [v for v in VARIANTS if not v[2]]
@K(P + 'apply_scaling(%s, %s, %s, %s, %s)' % (V1, V1, V1, M1, M1), args={'this': self_nlp, 0: ksc('c'), 1: ksc('d'), 2: kvec('x'), 3: kjac('c', 0), 4: kjac('d', 0)}, variants=NOSC, vmode='nlp', cost=9)
def _(c, s, cc, dd, g, Jc, Jd):
    mx, mo, mc = num(c, 'scaling_max_grad'), num(c, 'scaling_max_obj_grad'), num(c, 'scaling_max_con_grad')
    to, tc = ite(gt(mo, R(0)), mo, mx), ite(gt(mc, R(0)), mc, mx)
    small = and_(lt(infn(g.a, g.n), to), *[lt(AllMax(DEN.maxabs(J.n, J.m, (lambda A: lambda i, j: A(j, i))(J.a))), tc) for J in (Jc, Jd)])
    none = or_(isopt(c, 'scaling_type', 'none'), small)
    def install():
        v = c.new(SC); build(c, v, s.ptr, cc, dd, g, Jc, Jd, s.cons_eq_mapping_, s.cons_ineq_mapping_)
        s.nlp_scaling_ = v
        F, D = v.scale_factor_c.a, v.scale_factor_d.a
        for m, f in (('c_rhs_', F), ('dl_', D), ('du_', D)):
            b = getattr(s, m); A = b.a; b.a = (lambda A, f: lambda j: mul(A(j), f(j)))(A, f)
        append(c, s, v)
    c.when(not_(none), install)
    return not_(none)

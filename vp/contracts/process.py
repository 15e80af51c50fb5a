"""Contracts of the classification of variable bounds and constraints (hiopNlpFormulation::process_bounds, process_constraints)."""
from .base import *
from . import nlp as NLP, factory as FAC, evals as EVL
from .nlp import num, inum, isopt, self_nlp
SRC = EVL.SRC
P = NLP.P
ALL = []
def K(name, **kw):
    def d(f): ALL.append(name); return contract(name, **kw)(f)
    return d
INF = const(10**20, 'R')
def vdist(env, b):
    """partition of the variables over ranks: none, or one that gives this rank its local part"""
    n, il, ng = space(env)['x']; r, s = FAC.RANK(), FAC.SIZE(); env.fact(and_(le(I(0), r), lt(r, s)))
    given = env.sym('distributed', 'B'); d = env.darr('nlp.vec_distrib', add(s, I(1)), 'I', 4)
    A = d.lazy_cols[0][1]
    env.fact(ite(given, and_(eq(sel(A, r), il), eq(sel(A, add(r, I(1))), add(il, n))), and_(eq(il, I(0)), eq(n, ng))))
    b.over['vec_distrib_'] = S.ptr_ite(given, mkptr(d), S.NULL)
_shapeP = SHAPE[NLPC]
def shape_nlp5(env, b, **kw):
    _shapeP(env, b, **kw); vdist(env, b)
    for k, m in (('eq', 'c'), ('ineq', 'd')): b.over['cons_%s_type_' % k] = maybe(env, 'nlp.no_%stype' % k, mkptr(env.darr('nlp.%stype' % k, space(env)[m][0], 'I', 4)))
    b.over['comm_'] = mkptr(EVL.thecomm(env))
SHAPE[NLPC] = shape_nlp5
def fixedv(c, s):
    L, U, t = s.xl_.a, s.xu_.a, num(c, 'fixed_var_tolerance')
    return lambda i: and_(lt(U(i), INF), le(absr(sub(L(i), U(i))), mul(t, maxr(R(1), absr(U(i))))))
def flag(f): return lambda i: ite(f(i), R(1), R(0))
@K(P + 'process_bounds(int&, int&, int&, int&)', args={'this': self_nlp})
def _(c, s, nl, nu, nlu, nf):
    L, U, n = s.xl_.a, s.xu_.a, s.xl_.n
    c.require(Forall(n, lambda i: le(L(i), U(i))), 'consistent bounds')
    low = lambda i: gt(L(i), neg(INF)); upp = lambda i: lt(U(i), INF)
    F = fixedv(c, s)
    s.ixl_.a = flag(low); s.ixu_.a = flag(upp)
    nl.v = Count(n, low); nu.v = Count(n, upp); nlu.v = Count(n, lambda i: and_(low(i), upp(i))); nf.v = Count(n, F)
    return TRUE
# ------------------------------------------------------------------ constraints
from .evals import cb, user, ALLI, scalar, rawp
@cb([5], 'get_cons_info', ALLI)
def _(c, m, gl, gu, ty):
    sc = [scalar(c, m)]
    for p, w, so, st in ((gl, 'gl', 'R', 8), (gu, 'gu', 'R', 8), (ty, 'type', 'I', 4)):
        Arr(c, rawp(p), so, st).write(sc[0], (lambda w, so: lambda j: TM.App('get_cons_info.' + w, sc + [j], [], so))(w, so))
    return TM.App('ok:get_cons_info', sc, [], 'B')
MEMB = ('c_rhs_', 'cons_eq_type_', 'dl_', 'du_', 'idl_', 'idu_', 'cons_ineq_type_', 'cons_eq_mapping_', 'cons_ineq_mapping_')
def newint(c, n): v = c.new('hiop::hiopVectorIntSeq'); v.sz_ = n; FAC.setp(c, v, 'buf_', mkptr(c.newarr(n, 'I'))); return v
@K(P + 'process_constraints()', args={'this': self_nlp}, cost=50)
def _(c, s):
    m = s.n_cons_; c.require(ge(m, I(0)), 'size')
    G = lambda w, so: lambda j: TM.App('get_cons_info.' + w, [m, j], [], so)
    gl, gu, ty = G('gl', 'R'), G('gu', 'R'), G('type', 'I')
    c.require(TM.App('ok:get_cons_info', [m], [], 'B'), 'the user provides the constraint information')
    c.require(Forall(m, lambda j: le(gl(j), gu(j))), 'consistent bounds')
    for k in MEMB:
        if not k.endswith('type_'): c.destroy(getattr(s, k))
    iseq = lambda j: eq(gl(j), gu(j)); isin = lambda j: not_(iseq(j))
    me, mi = Count(m, iseq), Count(m, isin)
    s.n_cons_eq_ = me; s.n_cons_ineq_ = mi
    # the k-th equality (inequality) is the one preceded by k others
    nth = lambda f: lambda k: Last(m, lambda i: and_(f(i), eq(Count(i, f), k)))
    E, N = nth(iseq), nth(isin)
    for w, n, f in (('c_rhs_', me, lambda k: gl(E(k))), ('dl_', mi, lambda k: gl(N(k))), ('du_', mi, lambda k: gu(N(k))), ('idl_', mi, flag(lambda k: gt(gl(N(k)), neg(INF)))), ('idu_', mi, flag(lambda k: lt(gu(N(k)), INF)))):
        v = EVL.newvec(c, n); v.a = f; setattr(s, w, v)
    for w, n, f in (('cons_eq_mapping_', me, E), ('cons_ineq_mapping_', mi, N)):
        v = newint(c, n); v.a = f; setattr(s, w, v)
    for w, n, f in (('cons_eq_type_', me, E), ('cons_ineq_type_', mi, N)):
        a = c.newarr(n, 'I'); FAC.setp(c, s, w, mkptr(a)); Arr(c, mkptr(a), 'I', 4).write(n, (lambda f: lambda k: ty(f(k)))(f))
    low = lambda k: gt(gl(N(k)), neg(INF)); upp = lambda k: lt(gu(N(k)), INF)
    # every constraint is listed, at the position given by the number of constraints of its kind before it
    j = fresh('cj', 'I'); q, r = Count(j, iseq), Count(j, isin)
    def listed(c2, _):
        s2 = c2.wrap(s.ptr, NLPC); A, B = s2.cons_eq_mapping_.a, s2.cons_ineq_mapping_.a
        return implies(and_(le(I(0), j), lt(j, m)), ite(iseq(j), and_(le(I(0), q), lt(q, me), eq(A(q), j)), and_(le(I(0), r), lt(r, mi), eq(B(r), j))))
    if c.mode == 'verify': c.ensures.append(('every constraint is listed exactly where its rank says', listed))
    s.n_ineq_low_ = Count(mi, low); s.n_ineq_upp_ = Count(mi, upp); s.n_ineq_lu_ = Count(mi, lambda j: and_(low(j), upp(j)))
    return TRUE

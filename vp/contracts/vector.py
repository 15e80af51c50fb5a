"""Contracts of hiopVectorPar: every operation against its mathematical definition."""
from ..contract import *
from .. import terms as TM
P = 'hiop::hiopVectorPar::'
SRC = ['LinAlg/hiopVectorPar.cpp', 'LinAlg/hiopVectorIntSeq.cpp']
V = 'hiop::hiopVector const&'; VI = 'hiop::hiopVectorInt const&'
def AllSum(x): return uf('MPI_sum', [x], x.sort)
def AllMin(x): return uf('MPI_min', [x], x.sort)
def AllMax(x): return uf('MPI_max', [x], x.sort)
def AllLand(x): return uf('MPI_land', [x], x.sort)
DBL_MAX = const(Fraction(1.7976931348623157e308), 'R')
DBL_MIN = Fraction(2.2250738585072014e-308)
def one(x): return eq(x, R(1))
def zero(x): return eq(x, R(0))
def sqrt(x): return uf('sqrt', [x], 'R')
def log(x): return uf('log', [x], 'R')

def _shape(env, b, n=None, **kw):
    nm = b.name
    n = I(n) if n is not None else env.sym(nm + '.n', 'I')
    env.fact(ge(n, I(0)))
    env.set(b, 'n_local_', n)
    if kw.get('local', env.local): il = I(0); ng = n
    elif kw.get('il') is not None: il = kw['il']; ng = kw['ng']
    else: il = env.sym(nm + '.glob_il', 'I'); ng = env.sym(nm + '.nglob', 'I')
    env.set(b, 'glob_il_', il); env.set(b, 'glob_iu_', add(il, n)); env.set(b, 'n_', ng)
    env.fact(ge(il, I(0))); env.fact(le(add(il, n), ng))
    env.set(b, 'data_', mkptr(env.darr(nm, n)))
SHAPE['hiop::hiopVectorPar'] = _shape
Env.local = False
def same(c, s, *vs):
    for v in vs: c.require(eq(v.n, s.n), 'sizes agree')
def part(c, s, v):
    c.require(eq(v.n, s.n), 'sizes agree'); c.require(and_(eq(v.glob_il_, s.glob_il_), eq(v.glob_iu_, s.glob_iu_)), 'same partition')

# ---- fills and copies
@contract(P + 'setToZero()')
def _(c, s): s.a = lambda j: R(0)
@contract(P + 'setToConstant(double)')
def _(c, s, v): s.a = lambda j: v
@contract(P + 'setToConstant_w_patternSelect(double, %s)' % V)
def _(c, s, v, p):
    same(c, s, p); P_ = p.a
    s.a = lambda j: ite(one(P_(j)), v, R(0))
@contract(P + 'copyFrom(%s)' % V)
def _(c, s, v): part(c, s, v); s.a = v.a
@contract(P + 'copy_from_vectorpar(hiop::hiopVectorPar const&)')
def _(c, s, v): part(c, s, v); s.a = v.a
@contract(P + 'copy_to_vectorpar(hiop::hiopVectorPar&) const')
def _(c, s, v): part(c, s, v); v.a = s.a
def _raw(ln):
    return lambda env, nm, args: mkptr(env.darr(nm, ln(env)))
SELFN = lambda env: env.sym('self.n', 'I')
@contract(P + 'copyFrom(double const*)', args={0: _raw(SELFN)})
def _(c, s, v): s.a = v.snap() if not (v.ptr.single and v.ptr.base is None) else s.a
@contract(P + 'copyTo(double*) const', args={0: _raw(SELFN)})
def _(c, s, d): d.write(s.n, s.a)
@contract(P + 'copy_from_w_pattern(%s, %s)' % (V, V))
def _(c, s, v, p):
    same(c, s, v, p); A, B, P_ = s.a, v.a, p.a
    s.a = lambda j: ite(one(P_(j)), B(j), A(j))
def inrange(c, ix, n, N):
    c.require(Forall(n, lambda i: and_(le(I(0), ix(i)), lt(ix(i), N))), 'indices in range')
@contract(P + 'copy_from_indexes(%s, %s)' % (V, VI))
def _(c, s, v, ix):
    same(c, s, ix); K = ix.a; B = v.a; inrange(c, K, s.n, v.n)
    s.a = lambda j: B(K(j))
@contract(P + 'copy_from_indexes(double const*, %s)' % VI)
def _(c, s, v, ix):
    same(c, s, ix); K = ix.a; B = v.snap(); L = v.ptr.base.length; inrange(c, K, s.n, L)
    s.a = lambda j: B(K(j))
@contract(P + 'copyFromStarting(int, double const*, int)', args={1: _raw(lambda env: env.sym('a2', 'I'))})
def _(c, s, st, v, nv):
    c.require(and_(ge(st, I(0)), ge(nv, I(0)), le(add(st, nv), s.n)), 'destination range')
    s.arr.write(nv, v.snap(), lo=st)
@contract(P + 'copyFromStarting(int, %s)' % V)
def _(c, s, st, v):
    c.require(eq(s.n, s.n_), 'local vector'); c.require(and_(ge(st, I(0)), le(add(st, v.n), s.n)), 'destination range')
    s.arr.write(v.n, v.a, lo=st)
@contract(P + 'copy_from_starting_at(double const*, int, int)', args={0: lambda env, nm, args: mkptr(env.darr(nm, (env.fact(ge(env.sym('vlen', 'I'), I(0))), env.sym('vlen', 'I'))[1]))})
def _(c, s, v, st, nv):
    L = v.ptr.base.length
    c.require(eq(s.n, s.n_), 'local vector'); c.require(eq(nv, s.n), 'size'); c.require(ge(st, I(0)))
    if L is not None: c.require(le(add(st, nv), L))
    B = v.snap(); s.a = lambda j: B(add(j, st))
@contract(P + 'startingAtCopyFromStartingAt(int, %s, int)' % V)
def _(c, s, sd, v, sv):
    c.require(eq(s.n, s.n_)); c.require(eq(v.n, v.n_))
    c.require(or_(and_(ge(sd, I(0)), lt(sd, s.n)), and_(eq(s.n, I(0)), eq(sd, I(0)))))
    c.require(or_(and_(ge(sv, I(0)), lt(sv, v.n)), and_(eq(v.n, sv), ge(sv, I(0)))))
    hd, hs = sub(s.n, sd), sub(v.n, sv)
    c.require(or_(eq(hd, I(0)), eq(hs, I(0)), le(hd, hs)))
    B = v.a
    s.arr.write(ite(eq(hs, I(0)), I(0), hd), lambda j: B(add(j, sv)), lo=sd)
@contract(P + 'copyToStarting(int, hiop::hiopVector&) const')
def _(c, s, st, v):
    c.require(eq(s.n, s.n_)); c.require(and_(ge(st, I(0)), le(add(st, v.n), s.n)))
    A = s.a; v.a = lambda j: A(add(j, st))
@contract(P + 'copyToStarting(hiop::hiopVector&, int) const')
def _(c, s, v, st):
    c.require(eq(s.n, s.n_)); c.require(eq(v.n, v.n_)); c.require(and_(ge(st, I(0)), le(add(st, s.n), v.n)))
    v.arr.write(s.n, s.a, lo=st)
@contract(P + 'copyToStartingAt_w_pattern(hiop::hiopVector&, int, %s) const' % V)
def _(c, s, v, st, p):
    same(c, s, p); P_ = p.a; A = s.a; n = s.n
    rank = lambda k: Count(k, lambda i: one(P_(i)))
    c.require(ge(st, I(0))); c.require(le(add(st, rank(n)), v.n), 'fits')
    B = v.a
    def f(j):
        # the element whose rank among the selected ones is j - st
        l = Last(n, lambda i: and_(one(P_(i)), eq(add(rank(i), st), j)))
        return ite(ge(l, I(0)), A(l), B(j))
    v.a = f
MAPS = 'hiop::hiopVectorInt const&'
@contract(P + 'copy_from_two_vec_w_pattern(%s, %s, %s, %s)' % (V, VI, V, VI))
def _(c, s, a, am, b, bm):
    for v in (a, b): c.require(eq(v.n, v.n_), 'local')
    c.require(eq(a.n, am.n)); c.require(eq(b.n, bm.n)); c.require(eq(add(a.n, b.n), s.n))
    A, AM, B, BM, S0 = a.a, am.a, b.a, bm.a, s.a
    inrange(c, AM, a.n, s.n); inrange(c, BM, b.n, s.n)
    def f(j):
        la = Last(a.n, lambda i: eq(AM(i), j)); lb = Last(b.n, lambda i: eq(BM(i), j))
        return ite(ge(lb, I(0)), B(lb), ite(ge(la, I(0)), A(la), S0(j)))
    s.a = f
@contract(P + 'copy_to_two_vec_w_pattern(hiop::hiopVector&, %s, hiop::hiopVector&, %s) const' % (VI, VI))
def _(c, s, a, am, b, bm):
    for v in (a, b): c.require(eq(v.n, v.n_), 'local')
    c.require(eq(a.n, am.n)); c.require(eq(b.n, bm.n)); c.require(eq(add(a.n, b.n), s.n))
    A, AM, BM = s.a, am.a, bm.a
    inrange(c, AM, a.n, s.n); inrange(c, BM, b.n, s.n)
    a.a = lambda j: A(AM(j)); b.a = lambda j: A(BM(j))
@contract(P + 'startingAtCopyToStartingAt(int, hiop::hiopVector&, int, int) const')
def _(c, s, ss, v, sd, ne):
    c.require(eq(s.n, s.n_))
    c.require(and_(ge(ss, I(0)), le(ss, s.n), ge(sd, I(0)), le(sd, v.n)))
    c.require(ge(ne, I(-1)))
    c.require(or_(lt(ne, I(0)), and_(le(add(ss, ne), s.n), le(add(sd, ne), v.n))))
    k = ite(lt(ne, I(0)), minr(sub(s.n, ss), sub(v.n, sd)), ne)
    A = s.a; v.arr.write(k, lambda j: A(add(j, ss)), lo=sd)
@contract(P + 'startingAtCopyToStartingAt_w_pattern(int, hiop::hiopVector&, int, %s, int) const' % V)
def _(c, s, ss, v, sd, p, ne):
    c.require(eq(p.n, v.n)); c.require(and_(ge(ss, I(0)), le(ss, s.n), ge(sd, I(0)), le(sd, v.n)))
    c.require(or_(lt(ne, I(0)), and_(le(add(ss, ne), s.n), le(add(sd, ne), v.n))))
    k = ite(lt(ne, I(0)), minr(sub(s.n, ss), sub(v.n, sd)), ne)
    A, B, P_ = s.a, v.a, p.a
    # the selected positions i >= sd receive consecutive source elements, as long as there are some left
    def f(j):
        r = Count(sub(j, sd), lambda i: one(P_(add(i, sd))))
        return ite(and_(ge(j, sd), one(P_(j)), lt(r, k)), A(add(ss, r)), B(j))
    v.a = f
# ---- norms and products
def sumsq(s): A = s.a; return Sum(s.n, lambda i: mul(A(i), A(i)))
@contract(P + 'twonorm() const')
def _(c, s): return sqrt(AllSum(sumsq(s)))
@contract(P + 'dotProductWith(%s) const' % V)
def _(c, s, v): same(c, s, v); A, B = s.a, v.a; return AllSum(Sum(s.n, lambda i: mul(A(i), B(i))))
def maxabs(s): A = s.a; return Max(s.n, R(0), lambda i: absr(A(i)))
@contract(P + 'infnorm() const')
def _(c, s): return AllMax(maxabs(s))
@contract(P + 'infnorm_local() const')
def _(c, s): return maxabs(s)
@contract(P + 'onenorm() const')
def _(c, s): A = s.a; return AllSum(Sum(s.n, lambda i: absr(A(i))))
@contract(P + 'onenorm_local() const')
def _(c, s): A = s.a; return Sum(s.n, lambda i: absr(A(i)))
@contract(P + 'sum_local() const')
def _(c, s): A = s.a; return Sum(s.n, lambda i: A(i))
@contract(P + 'min() const')
def _(c, s): A = s.a; return AllMin(Min(s.n, DBL_MAX, lambda i: A(i)))
@contract(P + 'min_w_pattern(%s) const' % V)
def _(c, s, p):
    same(c, s, p); A, P_ = s.a, p.a
    return AllMin(Fold(s.n, DBL_MAX, lambda a, i: ite(one(P_(i)), minr(a, A(i)), a)))
@contract(P + 'logBarrier_local(%s) const' % V)
def _(c, s, p):
    same(c, s, p); A, P_ = s.a, p.a
    return Sum(s.n, lambda i: ite(one(P_(i)), log(A(i)), R(0)))
@contract(P + 'linearDampingTerm_local(%s, %s, double const&, double const&) const' % (V, V))
def _(c, s, l, r, mu, kd):
    same(c, s, l, r); A, L, U = s.a, l.a, r.a
    return mul(kd.v, mul(mu.v, Sum(s.n, lambda i: ite(and_(one(L(i)), zero(U(i))), A(i), R(0)))))
@contract(P + 'numOfElemsLessThan(double const&) const')
def _(c, s, v): A = s.a; x = v.v; return AllSum(Count(s.n, lambda i: lt(A(i), x)))
@contract(P + 'numOfElemsAbsLessThan(double const&) const')
def _(c, s, v): A = s.a; x = v.v; return AllSum(Count(s.n, lambda i: lt(absr(A(i)), x)))
# ---- elementwise
@contract(P + 'componentMult(%s)' % V)
def _(c, s, v): same(c, s, v); A, B = s.a, v.a; s.a = lambda j: mul(A(j), B(j))
@contract(P + 'componentDiv(%s)' % V)
def _(c, s, v): same(c, s, v); A, B = s.a, v.a; s.a = lambda j: div(A(j), B(j))
@contract(P + 'componentDiv_w_selectPattern(%s, %s)' % (V, V))
def _(c, s, v, p): same(c, s, v, p); A, B, P_ = s.a, v.a, p.a; s.a = lambda j: ite(zero(P_(j)), R(0), div(A(j), B(j)))
@contract(P + 'component_min(double)')
def _(c, s, k): A = s.a; s.a = lambda j: minr(A(j), k)
@contract(P + 'component_max(double)')
def _(c, s, k): A = s.a; s.a = lambda j: maxr(A(j), k)
@contract(P + 'component_min(%s)' % V)
def _(c, s, v): same(c, s, v); A, B = s.a, v.a; s.a = lambda j: minr(A(j), B(j))
@contract(P + 'component_max(%s)' % V)
def _(c, s, v): same(c, s, v); A, B = s.a, v.a; s.a = lambda j: maxr(A(j), B(j))
@contract(P + 'component_abs()')
def _(c, s): A = s.a; s.a = lambda j: absr(A(j))
@contract(P + 'component_sgn()')
def _(c, s): A = s.a; s.a = lambda j: ite(gt(A(j), R(0)), R(1), ite(lt(A(j), R(0)), R(-1), R(0)))
@contract(P + 'component_sqrt()')
def _(c, s): A = s.a; c.require(Forall(s.n, lambda i: ge(A(i), R(0)))); s.a = lambda j: sqrt(A(j))
@contract(P + 'scale(double)')
def _(c, s, k): A = s.a; s.a = lambda j: mul(k, A(j))
@contract(P + 'negate()')
def _(c, s): A = s.a; s.a = lambda j: neg(A(j))
@contract(P + 'invert()')
def _(c, s):
    A = s.a; c.require(Forall(s.n, lambda i: ge(absr(A(i)), R(Fraction(1e-35))))); s.a = lambda j: div(R(1), A(j))
@contract(P + 'axpy(double, %s)' % V)
def _(c, s, k, x): same(c, s, x); A, X = s.a, x.a; s.a = lambda j: add(A(j), mul(k, X(j)))
@contract(P + 'axpy_w_pattern(double, %s, %s)' % (V, V))
def _(c, s, k, x, p):
    same(c, s, x, p); A, X, P_ = s.a, x.a, p.a; s.a = lambda j: ite(one(P_(j)), add(A(j), mul(k, X(j))), A(j))
@contract(P + 'axpy(double, %s, %s)' % (V, VI))
def _(c, s, k, x, ix):
    c.require(eq(x.n, ix.n)); K = ix.a; A, X = s.a, x.a; c.require(le(ix.n, s.n)); inrange(c, K, ix.n, s.n)
    s.a = lambda j: add(A(j), Sum(ix.n, lambda i: ite(eq(K(i), j), mul(k, X(i)), R(0))))
@contract(P + 'axzpy(double, %s, %s)' % (V, V))
def _(c, s, k, x, z): same(c, s, x, z); A, X, Z = s.a, x.a, z.a; s.a = lambda j: add(A(j), mul(k, mul(X(j), Z(j))))
@contract(P + 'axdzpy(double, %s, %s)' % (V, V))
def _(c, s, k, x, z): same(c, s, x, z); A, X, Z = s.a, x.a, z.a; s.a = lambda j: add(A(j), mul(k, div(X(j), Z(j))))
@contract(P + 'axdzpy_w_pattern(double, %s, %s, %s)' % (V, V, V))
def _(c, s, k, x, z, p):
    same(c, s, x, z, p); A, X, Z, P_ = s.a, x.a, z.a, p.a
    s.a = lambda j: ite(one(P_(j)), add(A(j), div(mul(k, X(j)), Z(j))), A(j))
@contract(P + 'addConstant(double)')
def _(c, s, k): A = s.a; s.a = lambda j: add(A(j), k)
@contract(P + 'addConstant_w_patternSelect(double, %s)' % V)
def _(c, s, k, p): same(c, s, p); A, P_ = s.a, p.a; s.a = lambda j: ite(one(P_(j)), add(A(j), k), A(j))
@contract(P + 'selectPattern(%s)' % V)
def _(c, s, p): same(c, s, p); A, P_ = s.a, p.a; s.a = lambda j: ite(zero(P_(j)), R(0), A(j))
@contract(P + 'addLogBarrierGrad(double, %s, %s)' % (V, V))
def _(c, s, k, x, p):
    same(c, s, x, p); A, X, P_ = s.a, x.a, p.a; s.a = lambda j: ite(one(P_(j)), add(A(j), div(k, X(j))), A(j))
@contract(P + 'addLinearDampingTerm(%s, %s, double const&, double const&)' % (V, V))
def _(c, s, l, r, al, ct):
    same(c, s, l, r); A, L, U = s.a, l.a, r.a; a_, c_ = al.v, ct.v
    s.a = lambda j: add(mul(a_, A(j)), mul(c_, sub(L(j), U(j))))
# ---- predicates
def b01(b): return ite(b, I(1), I(0))
@contract(P + 'allPositive()')
def _(c, s): A = s.a; return AllMin(b01(Forall(s.n, lambda i: gt(A(i), R(0)))))
@contract(P + 'allPositive_w_patternSelect(%s)' % V)
def _(c, s, p): same(c, s, p); A, P_ = s.a, p.a; return AllMin(b01(Forall(s.n, lambda i: or_(zero(P_(i)), gt(A(i), R(0))))))
@contract(P + 'matchesPattern(%s)' % V)
def _(c, s, p):
    same(c, s, p); A, P_ = s.a, p.a
    return not_(eq(AllLand(b01(Forall(s.n, lambda i: implies(zero(P_(i)), zero(A(i)))))), I(0)))
@contract(P + 'is_zero() const')
def _(c, s): A = s.a; return not_(eq(AllMin(b01(Forall(s.n, lambda i: zero(A(i))))), I(0)))
@contract(P + 'is_equal(%s) const' % V)
def _(c, s, v):
    A, B = s.a, v.a
    return and_(eq(s.n, v.n), not_(eq(AllMin(b01(Forall(s.n, lambda i: eq(A(i), B(i))))), I(0))))
def isnan(x): return intrin.isnan_t(x)
def isinf(x): return intrin.isinf_t(x)
@contract(P + 'isnan_local() const')
def _(c, s): A = s.a; return Exists(s.n, lambda i: isnan(A(i)))
@contract(P + 'isinf_local() const')
def _(c, s): A = s.a; return Exists(s.n, lambda i: isinf(A(i)))
@contract(P + 'isfinite_local() const')
def _(c, s): A = s.a; return Forall(s.n, lambda i: and_(not_(isnan(A(i))), not_(isinf(A(i)))))
# ---- bounds
SMALL = 100 * DBL_MIN
def proj(x, l, hl, u, hu, k1, k2):
    pl, pu = mul(k1, maxr(R(1), absr(l))), mul(k1, maxr(R(1), absr(u)))
    aux = sub(mul(k2, sub(u, l)), R(SMALL))
    lo, hi = add(l, minr(pl, aux)), sub(u, minr(pu, aux))
    both = ite(lt(x, lo), lo, ite(gt(x, hi), hi, x))
    onlyl = maxr(x, sub(add(l, pl), R(SMALL))); onlyu = minr(x, sub(sub(u, pu), R(SMALL)))
    return ite(hl, ite(hu, both, onlyl), ite(hu, onlyu, x))
@contract(P + 'projectIntoBounds_local(%s, %s, %s, %s, double, double)' % (V, V, V, V))
def _(c, s, l, il, u, iu, k1, k2):
    same(c, s, l, il, u, iu); X, L, IL, U, IU = s.a, l.a, il.a, u.a, iu.a
    hl, hu = (lambda i: not_(zero(IL(i)))), (lambda i: not_(zero(IU(i))))
    c.require(gt(k1, R(0))); c.require(gt(k2, R(0))); c.require(lt(k2, R(Fraction(1, 2))))
    # bounds that are consistent are separated by more than the safeguard
    c.require(Forall(s.n, lambda i: implies(and_(hl(i), hu(i), le(L(i), U(i))), gt(mul(k2, sub(U(i), L(i))), R(SMALL)))))
    bad = First(s.n, lambda i: and_(hl(i), hu(i), gt(L(i), U(i))))
    s.a = lambda j: ite(lt(j, bad), proj(X(j), L(j), hl(j), U(j), hu(j), k1, k2), X(j))
    return not_(lt(bad, s.n))
def ftb(n, x, d, tau, pat=None):
    def f(a, i):
        r = div(neg(mul(tau, x(i))), d(i))
        g = lt(d(i), R(0))
        if pat is not None: g = and_(g, not_(zero(pat(i))))
        return ite(and_(g, lt(r, a)), r, a)
    return Fold(n, R(1), f)
@contract(P + 'fractionToTheBdry_local(%s, double const&) const' % V)
def _(c, s, d, tau):
    same(c, s, d); X, D, t = s.a, d.a, tau.v; c.require(and_(gt(t, R(0)), lt(t, R(1)))); c.require(Forall(s.n, lambda i: gt(X(i), R(0))))
    return ftb(s.n, X, D, t)
@contract(P + 'fractionToTheBdry_w_pattern_local(%s, double const&, %s) const' % (V, V))
def _(c, s, d, tau, p):
    same(c, s, d, p); X, D, t, P_ = s.a, d.a, tau.v, p.a; c.require(and_(gt(t, R(0)), lt(t, R(1))))
    c.require(Forall(s.n, lambda i: implies(and_(lt(D(i), R(0)), not_(zero(P_(i)))), gt(X(i), R(0)))))
    return ftb(s.n, X, D, t, P_)
@contract(P + 'adjustDuals_plh(%s, %s, double const&, double const&)' % (V, V))
def _(c, s, x, p, mu, ka):
    same(c, s, x, p); Z, X, P_, m, k = s.a, x.a, p.a, mu.v, ka.v
    c.require(gt(k, R(1))); c.require(gt(m, R(0))); c.require(Forall(s.n, lambda i: implies(one(P_(i)), gt(X(i), R(0)))))
    def f(j):
        r = div(m, X(j)); lo, hi = div(r, k), mul(r, k)
        return ite(one(P_(j)), maxr(minr(Z(j), hi), lo), Z(j))
    s.a = f
# ---- construction
def _mkvec(c, src, copy):
    v = c.new('hiop::hiopVectorPar')
    for m in ('n_local_', 'n_', 'glob_il_', 'glob_iu_'): setattr(v, m, getattr(src, m))
    o, sz, t = v._mem('comm_'); c.ex.store(c.st, pshift(v.ptr, I(o)), c.ex.load(c.st, pshift(src.ptr, I(o)), ('ptr',), c.mod), ('ptr',), c.mod)
    d = c.newarr(src.n)
    o, sz, t = v._mem('data_'); c.ex.store(c.st, pshift(v.ptr, I(o)), mkptr(d), ('ptr',), c.mod)
    if copy: v.a = src.a
    return v
@contract(P + 'alloc_clone() const')
def _(c, s): return _mkvec(c, s, False)
@contract(P + 'new_copy() const')
def _(c, s): return _mkvec(c, s, True)
NLT = 'hiop::hiopInterfaceBase::NonlinearityType'
def _iarr(ln): return lambda env, nm, args: mkptr(env.darr(nm, (env.fact(ge(env.sym(nm + '.len', 'I'), I(0))), env.sym(nm + '.len', 'I'))[1], 'I', 4))
def _wi(c, v): return Arr(c, v, 'I', 4)
@contract(P + 'set_array_from_to(%s*, int, int, %s const*, int) const' % (NLT, NLT), args={0: _iarr(0), 3: _iarr(0)}, wrap={0: _wi, 3: _wi})
def _(c, s, a, b, e, src, ss):
    c.require(and_(ge(b, I(0)), le(b, e), le(e, s.n), ge(ss, I(0)))); c.require(le(e, a.ptr.base.length)); c.require(le(add(ss, sub(e, b)), src.ptr.base.length))
    B = src.snap(); a.write(sub(e, b), lambda j: B(add(j, ss)), lo=b)
@contract(P + 'set_array_from_to(%s*, int, int, %s) const' % (NLT, NLT), args={0: _iarr(0)}, wrap={0: _wi})
def _(c, s, a, b, e, v):
    c.require(and_(ge(b, I(0)), le(b, e), le(e, s.n))); c.require(le(e, a.ptr.base.length))
    a.write(sub(e, b), lambda j: v, lo=b)
ALL = [n for n in REG if n.startswith(P)]
RED = [P + x for x in ('twonorm() const', 'dotProductWith(%s) const' % V, 'infnorm() const', 'infnorm_local() const', 'onenorm() const', 'onenorm_local() const', 'sum_local() const',
       'min() const', 'min_w_pattern(%s) const' % V, 'logBarrier_local(%s) const' % V, 'linearDampingTerm_local(%s, %s, double const&, double const&) const' % (V, V),
       'numOfElemsLessThan(double const&) const', 'numOfElemsAbsLessThan(double const&) const', 'allPositive()', 'allPositive_w_patternSelect(%s)' % V, 'matchesPattern(%s)' % V,
       'is_zero() const', 'is_equal(%s) const' % V, 'isnan_local() const', 'isinf_local() const', 'isfinite_local() const')]
BND = [n for n in ALL if any(k in n for k in ('projectInto', 'fractionToTheBdry', 'adjustDuals_plh'))]
MAP = [n for n in ALL if n not in RED and n not in BND]
# ---- index vectors
PI = 'hiop::hiopVectorIntSeq::'
@contract(PI + 'copy_from(int const*)', args={0: lambda env, nm, args: S.ptr_ite(env.sym(nm + '.given', 'B'), mkptr(env.darr(nm, SELFN(env), 'I', 4)), S.NULL)})
def _(c, s, v):
    A = s.a; given = not_(ptr_eq(v.ptr, NULL)); B = v.snap()
    s.a = lambda j: ite(given, B(j), A(j))
@contract(PI + 'copy_from_vectorseq(hiop::hiopVectorIntSeq const&)')
def _(c, s, v): c.require(eq(v.n, s.n), 'sizes agree'); s.a = v.a
@contract(PI + 'copy_to_vectorseq(hiop::hiopVectorIntSeq&) const')
def _(c, s, v): c.require(eq(v.n, s.n), 'sizes agree'); v.a = s.a
@contract(PI + 'set_to_zero()')
def _(c, s): s.a = lambda j: I(0)
@contract(PI + 'set_to_constant(int)')
def _(c, s, x): s.a = lambda j: x
@contract(PI + 'linspace(int const&, int const&)')
def _(c, s, a, d): x, y = a.v, d.v; s.a = lambda j: add(x, mul(y, j))
INT = [n for n in REG if n.startswith(PI)]
MAP += INT; ALL += INT

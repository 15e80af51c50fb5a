"""Contracts of hiopMatrixDenseRowMajor: a row-major matrix whose rows M_[i] are consecutive in one block.
Assumption of the shape: max_rows_ >= 1 (a matrix allocated with no rows at all has no data block)."""
from ..contract import *
from .. import terms as TM
from .base import *
D = 'hiop::hiopMatrixDenseRowMajor::'; DC = 'hiop::hiopMatrixDenseRowMajor'
SRC = ['LinAlg/hiopMatrixDenseRowMajor.cpp', 'LinAlg/hiopVectorPar.cpp', 'LinAlg/hiopVectorIntSeq.cpp']
MD = 'hiop::hiopMatrixDense const&'; MG = 'hiop::hiopMatrix const&'; MR = 'hiop::hiopMatrix&'
def dim(env, k):
    x = env.sym(k, 'I'); env.fact(ge(x, I(0))); return x
def mat(m, n, **kw):
    """hook: a matrix with named dimensions"""
    def f(env, nm, args=None):
        kk = dict(kw)
        if kk.get('dist'): kk.pop('dist'); kk.update(local=False, ng=dim(env, n + '.ng'), jl=dim(env, n + '.jl'))
        return mkptr(env.obj(DC, nm, m=dim(env, m), n=dim(env, n), **kk))
    return f
def this(m, n, **kw): return lambda env, st: mat(m, n, **kw)(env, 'self')
def v(n, il=None, ng=None): return lambda env, nm, args: vec(env, nm, dim(env, n), dim(env, il) if il else None, dim(env, ng) if ng else None)
def vdist(n): return v(n, n + '.jl', n + '.ng')
def buf(m, n): return lambda env, nm, args: mkptr(matblock(env, nm, dim(env, m), dim(env, n)))
def raw(n): return lambda env, nm, args: mkptr(env.darr(nm, dim(env, n)))
def iraw(n): return lambda env, nm, args: mkptr(env.darr(nm, dim(env, n), 'I', 4))
SQ = dict(this=this('m', 'm')); LOC = dict(this=this('m', 'n')); DIST = dict(this=this('m', 'n', dist=True))
COPY, PROD, ADD, INQ = [], [], [], []
def K(lst, sig, **kw):
    def d(f):
        lst.append(D + sig); return contract(D + sig, **kw)(f)
    return d
def sq(c, s): c.require(and_(eq(s.n_local_, s.n_global_), eq(s.m_local_, s.n_local_)), 'square, not distributed')
def loc(c, *ms):
    for s in ms: c.require(eq(s.n_local_, s.n_global_), 'not distributed')
def dims(c, a, m, n): c.require(and_(eq(a.m, I(m)), eq(a.n, I(n))), 'dimensions agree')

# ---------------------------------------------------------------- fills, copies, blocks
def fill(s, x):
    # every local row; the first row of the storage is written even when m_local_ is 0 (spare storage)
    s.arr.write(maxr(s.m, I(1)), s.n, lambda i, j: x)
@K(COPY, 'setToZero()', args=DIST)
def _(c, s): fill(s, R(0))
@K(COPY, 'setToConstant(double)', args=DIST)
def _(c, s, x): fill(s, x)
@K(COPY, 'copyFrom(%s)' % MD, args={**DIST, 0: mat('m', 'n', dist=True)})
def _(c, s, x):
    c.require(and_(eq(s.m, x.m), eq(s.n, x.n), eq(s.n_global_, x.n_global_), eq(s.glob_jl_, x.glob_jl_), eq(s.glob_ju_, x.glob_ju_)), 'same shape')
    s.a = x.a
def opt(h):
    return lambda env, nm, args: S.ptr_ite(env.sym(nm + '.given', 'B'), h(env, nm, args), S.NULL)
@K(COPY, 'copyFrom(double const*)', args={**DIST, 0: buf('m', 'n')}, wrap={0: lambda c, p: p})
def _(c, s, p): s.a = Arr2(c, p, s.n).snap()
@K(COPY, 'copy_to(double*)', args={**DIST, 0: buf('m', 'n')}, wrap={0: lambda c, p: p})
def _(c, s, p): Arr2(c, p, s.n).write(s.m, s.n, s.a)
@K(COPY, 'appendRow(hiop::hiopVector const&)', args={**DIST, 0: vdist('n')})
def _(c, s, x):
    c.require(and_(eq(x.n, s.n), lt(s.m, s.max_rows_)), 'room for a row of this length'); X = x.a
    s.arr.write(1, s.n, lambda i, j: X(j), r0=s.m); s.m_local_ = add(s.m, I(1))
@K(COPY, 'copyRowsFrom(%s, int, int)' % MD, args={**DIST, 0: mat('m2', 'n', dist=True)})
def _(c, s, x, nr, dst):
    c.require(and_(ge(dst, I(0)), eq(s.n, x.n), le(add(dst, nr), s.m), le(nr, x.m)), 'rows exist')
    s.arr.write(nr, s.n, x.a, r0=dst)
@K(COPY, 'copyRowsFrom(%s, int const*, int)' % MG, args={**DIST, 0: mat('m2', 'n', dist=True), 1: iraw('m')})
def _(c, s, x, idx, nr):
    c.require(and_(eq(s.n, x.n), eq(s.n_global_, x.n_global_), le(nr, x.m), eq(nr, s.m)), 'sizes'); ix = idx.snap(); X = x.a
    c.require(Forall(nr, lambda i: and_(le(I(0), ix(i)), lt(ix(i), x.m))), 'row indexes valid')
    s.a = lambda i, j: X(ix(i), j)
@K(COPY, 'copyBlockFromMatrix(int, int, %s)' % MD, args={**LOC, 2: mat('m2', 'n2')})
def _(c, s, i0, j0, x):
    loc(c, s, x); c.require(and_(le(I(0), i0), le(I(0), j0), le(add(i0, x.m), s.m), le(add(j0, x.n), s.n)), 'block inside')
    c.require(and_(or_(lt(i0, s.m), le(s.m, I(0)), le(x.m, I(0)), le(x.n, I(0))), or_(lt(j0, s.n), le(s.n, I(0)), le(x.m, I(0)), le(x.n, I(0)))), 'block inside')
    s.arr.write(x.m, x.n, x.a, r0=i0, c0=j0)
@K(COPY, 'copyFromMatrixBlock(%s, int, int)' % MD, args={**LOC, 0: mat('m2', 'n2')})
def _(c, s, x, i0, j0):
    loc(c, s, x); c.require(and_(le(I(0), i0), le(I(0), j0), lt(i0, x.m), le(add(s.m, i0), x.m), le(add(s.n, j0), x.n)), 'block inside'); X = x.a
    s.a = lambda i, j: X(add(i, i0), add(j, j0))
@K(COPY, 'shiftRows(int)', args=DIST)
def _(c, s, k):
    c.require(le(absr(k), s.m), 'shift within the matrix'); A = s.a
    s.arr.write(s.m, s.n, lambda i, j: A(sub(i, k), j), when=lambda i, j: and_(le(I(0), sub(i, k)), lt(sub(i, k), s.m)))
@K(COPY, 'replaceRow(int, hiop::hiopVector const&)', args={**DIST, 1: v('k')})
def _(c, s, r, x):
    c.require(and_(le(I(0), r), lt(r, s.m)), 'row exists'); X = x.a
    s.arr.write(1, minr(s.n, x.n), lambda i, j: X(j), r0=r)
@K(COPY, 'getRow(int, hiop::hiopVector&)', args={**DIST, 1: vdist('n')})
def _(c, s, r, x):
    c.require(and_(le(I(0), r), lt(r, s.m), eq(x.n, s.n)), 'row exists'); A = s.a
    x.a = lambda j: A(r, j)
@K(COPY, 'set_Hess_FR(%s, hiop::hiopVector const&)' % MD, args={**SQ, 0: mat('m', 'm'), 1: v('m')})
def _(c, s, H, d):
    c.require(and_(eq(s.m, s.n), eq(s.n_local_, s.n_global_), eq(d.n, s.n), eq(H.m, s.m), eq(H.n, s.n), eq(H.n_global_, s.n_global_), eq(H.glob_jl_, s.glob_jl_), eq(H.glob_ju_, s.glob_ju_), eq(d.n_, s.n)), 'dimensions'); h, dd = H.a, d.a
    s.a = lambda i, j: ite(eq(i, j), add(h(i, j), dd(i)), h(i, j))
def jacfr(env, st):
    me, mi, n = dim(env, 'me'), dim(env, 'mi'), dim(env, 'n'); return mkptr(env.obj(DC, 'self', m=add(me, mi), n=add(n, scale(2, me), scale(2, mi)) if False else add(add(n, scale(2, me)), scale(2, mi))))
@K(COPY, 'set_Jac_FR(%s, %s)' % (MD, MD), args={'this': jacfr, 0: mat('me', 'n'), 1: mat('mi', 'n')})
def _(c, s, Jc, Jd):
    # one rank holds all columns: [J | -I  I] for the equalities and inequalities
    me, mi, n = Jc.m, Jd.m, Jc.n; C, E = Jc.a, Jd.a
    c.require(and_(eq(Jc.n, Jd.n), eq(Jc.n_global_, Jd.n_global_), eq(add(me, mi), s.m), le(Jc.n_global_, s.n_global_)), 'dimensions')
    c.require(and_(eq(s.myrank_, sub(s.comm_size_, I(1))), eq(add(add(n, scale(2, me)), scale(2, mi)), s.n)), 'last rank')
    def f(i, j):
        top = lt(i, me); k = sub(i, me); b = add(n, scale(2, me))
        pe = ite(eq(j, add(n, i)), R(-1), ite(eq(j, add(add(n, me), i)), R(1), R(0)))
        pi = ite(eq(j, add(b, k)), R(-1), ite(eq(j, add(add(b, mi), k)), R(1), R(0)))
        return ite(lt(j, n), ite(top, C(i, j), E(k, j)), ite(top, pe, pi))
    fill(s, R(0)); s.a = f
@K(COPY, 'overwriteUpperTriangleWithLower()', args=SQ)
def _(c, s): sq(c, s); A = s.a; s.a = lambda i, j: ite(lt(i, j), A(j, i), A(i, j))
@K(COPY, 'overwriteLowerTriangleWithUpper()', args=SQ)
def _(c, s): sq(c, s); A = s.a; s.a = lambda i, j: ite(lt(j, i), A(j, i), A(i, j))
@K(COPY, 'symmetrize()', args=SQ)
def _(c, s): sq(c, s); A = s.a; s.a = lambda i, j: ite(lt(j, i), A(j, i), A(i, j)); return TRUE

# ---------------------------------------------------------------- inquiries
def fin(x): return and_(not_(uf('isnan', [x], 'B')), not_(uf('isinf', [x], 'B')))
@K(INQ, 'isfinite() const', args=DIST)
def _(c, s): A = s.a; return Forall(s.m, lambda i: Forall(s.n, lambda j: fin(A(i, j))))
def maxabs(m, n, at): return intrin.mat_maxabs(m, n, at)
@K(INQ, 'max_abs_value()', args=DIST)
def _(c, s): A = s.a; return AllMax(maxabs(s.n, s.m, lambda i, j: A(j, i)))
@K(INQ, 'row_max_abs_value(hiop::hiopVector&)', args={**DIST, 0: v('m')})
def _(c, s, x):
    c.require(eq(s.m, x.n), 'one entry per row'); A = s.a
    x.a = lambda i: AllMax(Fold(s.n, R(0), lambda q, j: maxr(q, absr(A(i, j)))))
@K(ADD, 'scale_row(hiop::hiopVector&, bool)', args={**DIST, 0: v('m')})
def _(c, s, x, inv):
    c.require(eq(s.m, x.n), 'one factor per row'); A, X = s.a, x.a
    s.a = lambda i, j: mul(ite(tobool(inv), div(R(1), X(i)), X(i)), A(i, j))

# ---------------------------------------------------------------- additions
@K(ADD, 'addDiagonal(double const&, hiop::hiopVector const&)', args={**SQ, 1: v('m')})
def _(c, s, al, d):
    c.require(and_(eq(d.n_, s.n_global_), eq(d.n_, s.m), eq(d.n, s.m), eq(d.n, s.n)), 'sizes'); A, X, a = s.a, d.a, al.v
    s.a = lambda i, j: ite(eq(i, j), add(A(i, j), mul(a, X(i))), A(i, j))
@K(ADD, 'addDiagonal(double const&)', args=SQ)
def _(c, s, x):
    c.require(eq(s.m, s.n), 'square'); A, a = s.a, x.v
    s.a = lambda i, j: ite(eq(i, j), add(A(i, j), a), A(i, j))
def diagadd(s, start, cnt, val):
    A = s.a
    s.a = lambda i, j: ite(and_(eq(i, j), le(start, i), lt(i, add(start, cnt))), add(A(i, j), val(sub(i, start))), A(i, j))
@K(ADD, 'addSubDiagonal(double const&, int, hiop::hiopVector const&)', args={**LOC, 2: v('k')})
def _(c, s, al, start, d):
    c.require(and_(ge(start, I(0)), le(add(start, d.n_), s.n), le(add(start, d.n_), s.m), eq(d.n_, d.n)), 'diagonal inside'); X, a = d.a, al.v
    diagadd(s, start, d.n, lambda k: mul(a, X(k)))
@K(ADD, 'addSubDiagonal(int, double const&, hiop::hiopVector const&, int, int)', args={**SQ, 2: v('k')})
def _(c, s, start, al, d, src, cnt):
    sq(c, s); c.require(and_(ge(start, I(0)), lt(start, s.m), ge(src, I(0)), eq(d.n, d.n_), le(src, d.n)), 'ranges'); X, a = d.a, al.v
    n = ite(lt(cnt, I(0)), sub(d.n_, src), cnt)
    c.require(le(add(n, src), d.n), 'ranges')
    diagadd(s, start, minr(n, sub(s.m, start)), lambda k: mul(a, X(add(src, k))))
@K(ADD, 'addSubDiagonal(int, int, double const&)', args=SQ)
def _(c, s, start, cnt, x):
    sq(c, s); c.require(and_(ge(cnt, I(0)), ge(start, I(0)), lt(start, add(s.m, I(1))), le(add(start, cnt), s.n)), 'ranges'); a = x.v
    diagadd(s, start, cnt, lambda k: a)
@K(ADD, 'addMatrix(double, %s)' % MG, args={**DIST, 1: mat('m', 'n', dist=True)})
def _(c, s, al, x):
    dims(c, x, s.m, s.n); A, X = s.a, x.a
    s.a = lambda i, j: add(A(i, j), mul(al, X(i, j)))
@K(ADD, 'transAddToSymDenseMatrixUpperTriangle(int, int, double, hiop::hiopMatrixDense&) const', args={**LOC, 3: mat('w', 'w')})
def _(c, s, r0, c0, al, W):
    loc(c, s, W); c.require(and_(ge(r0, I(0)), le(add(s.n, r0), W.m), ge(c0, I(0)), le(add(s.m, c0), W.n), eq(W.m, W.n)), 'fits')
    c.require(or_(eq(s.m, I(0)), eq(s.n, I(0)), le(sub(add(r0, s.n), I(1)), c0)), 'upper triangle'); A, B = s.a, W.a
    W.arr.write(s.n, s.m, lambda i, j: add(B(add(r0, i), add(c0, j)), mul(al, A(j, i))), r0=r0, c0=c0)
@K(ADD, 'addUpperTriangleToSymDenseMatrixUpperTriangle(int, double, hiop::hiopMatrixDense&) const', args={**SQ, 2: mat('w', 'w')})
def _(c, s, d0, al, W):
    sq(c, s); loc(c, W); c.require(and_(ge(d0, I(0)), eq(W.m, W.n), le(add(d0, s.n), W.n)), 'fits'); A, B = s.a, W.a
    W.arr.write(s.n, s.n, lambda i, j: add(B(add(d0, i), add(d0, j)), mul(al, A(i, j))), r0=d0, c0=d0, when=lambda i, j: le(i, j))

# ---------------------------------------------------------------- products
def finite(c, n, A): c.require(Forall(n, lambda j: fin(A(j))), 'finite')
def mfinite(c, M):
    A = M.a; c.require(Forall(M.m, lambda i: Forall(M.n, lambda j: fin(A(i, j)))), 'finite')
def mvprod(s, be, Y, al, X):
    """what the ranks sum: this rank's share of beta*y + alpha*A*x (beta*y enters on rank 0 only)"""
    A = s.a; b = ite(eq(s.myrank_, I(0)), be, R(0))
    return lambda i: AllSum(add(mul(b, Y(i)), mul(al, Sum(s.n, lambda j: mul(A(i, j), X(j))))))
@K(PROD, 'timesVec(double, double*, double, double const*) const', args={**DIST, 1: raw('m'), 3: raw('n')})
def _(c, s, be, y, al, x): y.write(s.m, mvprod(s, be, y.snap(), al, x.snap()))
@K(PROD, 'timesVec(double, hiop::hiopVector&, double, hiop::hiopVector const&) const', args={**DIST, 1: v('m'), 3: vdist('n')})
def _(c, s, be, y, al, x):
    c.require(and_(eq(y.n, s.m), eq(y.n_, s.m), eq(x.n, s.n), eq(x.n_, s.n_global_)), 'sizes'); Y, X = y.a, x.a
    c.require(or_(eq(be, R(0)), Forall(y.n, lambda j: fin(Y(j)))), 'finite'); finite(c, x.n, X)
    y.a = mvprod(s, be, Y, al, X)
    Z = y.a; c.require(Forall(y.n, lambda j: fin(Z(j))), 'result does not overflow')
def mtvprod(s, be, Y, al, X):
    A = s.a
    return lambda j: add(mul(be, Y(j)), mul(al, Sum(s.m, lambda i: mul(A(i, j), X(i)))))
@K(PROD, 'transTimesVec(double, double*, double, double const*) const', args={**DIST, 1: raw('n'), 3: raw('m')})
def _(c, s, be, y, al, x): y.write(s.n, mtvprod(s, be, y.snap(), al, x.snap()))
@K(PROD, 'transTimesVec(double, hiop::hiopVector&, double, hiop::hiopVector const&) const', args={**DIST, 1: vdist('n'), 3: v('m')})
def _(c, s, be, y, al, x):
    c.require(and_(eq(x.n, s.m), eq(x.n_, s.m), eq(y.n, s.n), eq(y.n_, s.n_global_)), 'sizes'); Y, X = y.a, x.a
    finite(c, y.n, Y); finite(c, x.n, X)
    y.a = mtvprod(s, be, Y, al, X)
def mprod(W, be, al, k, f):
    """W := beta*W + alpha * sum_l f(i, l, j)"""
    B = W.a
    W.a = lambda i, j: add(mul(be, B(i, j)), mul(al, Sum(k, lambda l: f(i, l, j))))
@K(PROD, 'timesMat(double, %s, double, %s) const' % (MR, MG), args={**LOC, 1: mat('m', 'k'), 3: mat('n', 'k')})
def _(c, s, be, W, al, X):
    loc(c, s, X, W); dims(c, W, s.m, X.n); dims(c, X, s.n, W.n); mfinite(c, W); mfinite(c, X); A, B, Z = s.a, X.a, W.a
    # with no columns in this matrix W is left alone
    W.a = lambda i, j: ite(eq(s.n, I(0)), Z(i, j), add(mul(be, Z(i, j)), mul(al, Sum(s.n, lambda l: mul(A(i, l), B(l, j))))))
@K(PROD, 'timesMat_local(double, %s, double, %s) const' % (MR, MG), args={**LOC, 1: mat('m', 'k'), 3: mat('n', 'k')})
def _(c, s, be, W, al, X):
    loc(c, s, X, W); dims(c, W, s.m, X.n); dims(c, X, s.n, W.n); mfinite(c, W); mfinite(c, X); A, B = s.a, X.a
    mprod(W, be, al, s.n, lambda i, l, j: mul(A(i, l), B(l, j)))
@K(PROD, 'transTimesMat(double, %s, double, %s) const' % (MR, MG), args={**LOC, 1: mat('n', 'k', dist=True), 3: mat('m', 'k', dist=True)})
def _(c, s, be, W, al, X):
    loc(c, s); c.require(eq(X.n_global_, W.n_global_), 'sizes'); dims(c, W, s.n, X.n); dims(c, X, s.m, W.n); mfinite(c, W); mfinite(c, X); A, B = s.a, X.a
    mprod(W, be, al, s.m, lambda i, l, j: mul(A(l, i), B(l, j)))
@K(PROD, 'timesMatTrans_local(double, %s, double, %s) const' % (MR, MG), args={**DIST, 1: mat('m', 'k'), 3: mat('k', 'n', dist=True)})
def _(c, s, be, W, al, X):
    loc(c, W); dims(c, W, s.m, X.m); c.require(eq(X.n, s.n), 'sizes'); A, B = s.a, X.a
    mprod(W, be, al, s.n, lambda i, l, j: mul(A(i, l), B(j, l)))
@K(PROD, 'timesMatTrans(double, %s, double, %s) const' % (MR, MG), args={**DIST, 1: mat('m', 'k'), 3: mat('k', 'n', dist=True)})
def _(c, s, be, W, al, X):
    loc(c, W); dims(c, W, s.m, X.m); c.require(and_(eq(X.n, s.n), eq(X.n_global_, s.n_global_)), 'sizes'); mfinite(c, W); mfinite(c, X); A, B, Z = s.a, X.a, W.a
    b = ite(eq(s.myrank_, I(0)), be, R(0))
    W.a = lambda i, j: AllSum(add(mul(b, Z(i, j)), mul(al, Sum(s.n, lambda l: mul(A(i, l), B(j, l))))))
ALL = COPY + INQ + ADD + PROD

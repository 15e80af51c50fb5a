"""Contracts of hiopHessianLowRank: the limited-memory quasi-Newton Hessian in compact form. The factorization of the small matrix V and
the solves with it (LAPACK) are uninterpreted functions of V and of the right-hand sides."""
from .base import *
from . import dense as DEN, factory as FAC, residual as RES, evals as EVL, nlp as NLP
from .nlp import num, inum, isopt
SRC = RES.SRC + [x for x in ['Optimization/hiopHessianLowRank.cpp', 'LinAlg/LinAlgFactory.cpp', 'Optimization/hiopNlpTransforms.cpp'] if x not in RES.SRC]
H_ = 'hiop::hiopHessianLowRank::'; HC = 'hiop::hiopHessianLowRank'; DC = DEN.DC
MDc, MDr, VC, V1 = 'hiop::hiopMatrixDense const&', 'hiop::hiopMatrixDense&', 'hiop::hiopVector const&', 'hiop::hiopVector&'
def L_(env):
    """number of pairs in the memory, and its limit"""
    l, lm = env.sym('l', 'I'), env.sym('lmax', 'I'); env.fact(and_(ge(l, I(0)), ge(lm, I(0)), le(l, lm))); return l, lm
def mats(env, nm, m, kind='x', mr=None):
    n, il, ng = space(env)[kind]
    return mkptr(env.obj(DC, nm, m=m, n=n, local=False, ng=ng, jl=il, **(dict(max_rows=mr) if mr is not None else {})))
def sq(env, nm, m, n=None): return mkptr(env.obj(DC, nm, m=m, n=m if n is None else n))
CHANGED = ['current']     # solve() is under contract for an up-to-date representation; the other cases ('changed', 'resized': rebuilt first) take the prover too long
def work(env, nm, k, w):
    """scratch vector: null, of the right size or of another one (each case in its own variant where there are variants)"""
    var = getattr(env, 'variant', None); l = L_(env)[0]; v = lambda n: scratch(env, vec(env, nm + '.' + k, n))
    if var is None or k[:2] != '_l': return maybe(env, nm + k, v(w))
    if var == 'current': return v(l)
    if var == 'resized': env.fact(not_(eq(w, l))); return v(w)
    return NULL
def shape_hess(env, b, **kw):
    nm = b.name; l, lm = L_(env); me, mi = space(env)['c'][0], space(env)['d'][0]
    env.set(b, 'l_max', lm)
    b.over['nlp'] = the_nlp(env)
    for k in ('DhInv', '_Dx', 'yk', 'sk', 'grad_f_prev_'): b.over[k] = vx(env, nm + '.' + k)
    for k in ('_n_vec1', '_n_vec2'): b.over[k] = scratch(env, vx(env, nm + '.' + k))
    mr = env.sym('memrows', 'I'); env.fact(and_(ge(mr, lm), ge(mr, I(1))))
    b.over['St_'] = mats(env, nm + '.St', l, mr=mr); b.over['Yt_'] = mats(env, nm + '.Yt', l, mr=mr)
    b.over['L_'] = sq(env, nm + '.L', l); b.over['D_'] = vec(env, nm + '.D', l)
    v = env.sym('vdim', 'I'); env.fact(ge(v, I(0))); var = getattr(env, 'variant', None)
    if var is not None:
        env.set(b, 'matrixChanged', I(int(var != 'current')))
        if var in ('current', 'changed'): v = scale(2, l)
        if var == 'resized': env.fact(not_(eq(v, scale(2, l))))
    for k in ('V_', '_Vmat'): b.over[k] = sq(env, nm + '.' + k, v)
    if var == 'current': env.set(b.over['_Vmat'].base, 'myrank_', I(0))
    # buffers of the reductions: three l x l matrices one after the other; k x 2l; k x k
    kc = env.sym('kcons', 'I'); env.fact(ge(kc, I(0)))
    for k in ('_buff1_lxlx3', '_buff2_lxlx3'):
        r = env.sym(nm + k + '.rows', 'I'); env.fact(ge(r, scale(3, l))); b.over[k] = scratch(env, mkptr(matblock(env, nm + '.' + k, r, l)))
    wk = env.sym(nm + '.nwork', 'I'); env.fact(ge(wk, I(0))); b.over['_V_work_vec'] = maybe(env, nm + '.work', scratch(env, vec(env, nm + '._V_work_vec', wk)))
    ip = env.sym(nm + '.ipiv', 'I'); env.fact(ge(ip, I(0))); b.over['_V_ipiv_vec'] = scratch(env, mkptr(env.darr(nm + '._V_ipiv_vec', ip, 'I', 4)))
    b.over['it_prev_'] = mkptr(env.obj('hiop::hiopIterate', 'prev'))
    b.over['Jac_c_prev_'] = mats(env, nm + '.Jcp', me); b.over['Jac_d_prev_'] = mats(env, nm + '.Jdp', mi)
    for k in ('_l_vec1', '_l_vec2', '_2l_vec1'):
        w = env.sym(nm + k + '.n', 'I'); env.fact(ge(w, I(0))); b.over[k] = work(env, nm, k, w)
    k_ = env.sym('kcons', 'I'); env.fact(ge(k_, I(0)))
    for k, r in (('_lxl_mat1', None), ('_kxl_mat1', k_), ('_kx2l_mat1', k_), ('_S1', k_), ('_Y1', k_)):
        w = env.sym(nm + k + '.n', 'I'); env.fact(ge(w, I(0))); b.over[k] = maybe(env, nm + k, scratch(env, sq(env, nm + '.' + k, w if r is None else r, w)))
SHAPE[HC] = shape_hess
CT.IGNORE[HC] = ['_l_vec1', '_l_vec2', '_2l_vec1', '_lxl_mat1', '_kxl_mat1', '_kx2l_mat1', '_S1', '_Y1', '_n_vec1', '_n_vec2', '_V_work_vec', '_V_ipiv_vec', '_V_ipiv_size']
# ------------------------------------------------------------------------- weighted products
def dim(k): return lambda env: DEN.dim(env, k)
def prodD(A, d, B, n): return lambda i, j: Sum(n, lambda p: mul(mul(A(i, p), d(p)), B(j, p)))
@contract(H_ + 'symmMatTimesDiagTimesMatTrans_local(double, %s, double, %s, %s)' % (MDr, MDc, VC), static=True, args={1: DEN.mat('k', 'k'), 3: DEN.mat('k', 'n', dist=True), 4: DEN.vdist('n')})
def _(c, be, W, al, X, d):
    k = W.m; c.require(and_(eq(X.m, k), eq(W.n, k), eq(d.n_, X.n_global_), eq(d.n, X.n)), 'sizes'); DEN.loc(c, W)
    w, f = W.a, prodD(X.a, d.a, X.a, X.n); up = lambda i, j: add(mul(be, w(i, j)), mul(al, f(i, j)))
    # the upper triangle is computed, the lower one mirrored
    W.a = lambda i, j: ite(le(i, j), up(i, j), up(j, i))
@contract(H_ + 'matTimesDiagTimesMatTrans_local(%s, %s, %s, %s)' % (MDr, MDc, VC, MDc), static=True, args={0: DEN.mat('l', 'k'), 1: DEN.mat('l', 'n', dist=True), 2: DEN.vdist('n'), 3: DEN.mat('k', 'n', dist=True)})
def _(c, W, S_, d, X):
    c.require(and_(eq(S_.n_global_, d.n_), eq(S_.n_global_, X.n_global_), eq(X.n, d.n), eq(S_.n, d.n), eq(W.n, X.m), eq(W.m, S_.m)), 'sizes'); DEN.loc(c, W)
    W.a = prodD(S_.a, d.a, X.a, d.n)
# ------------------------------------------------------------------------- memory
def inv(c, s):
    """the triangular and diagonal factors have the size of the memory"""
    l = s.St_.m; c.require(and_(eq(s.l_curr, l), eq(s.Yt_.m, l), eq(s.L_.m, l), eq(s.L_.n, l), eq(s.D_.n, l)), 'factors have the size of the memory')
def lmat(c, s, v): FAC.setp(c, s, 'L_', v.ptr)
def newmat(c, m, n):
    s = c.new(DC); FAC.mset(c, s, m, n, n, I(0), mkptr(c.ex.gblock('ompi_mpi_comm_self'))); s.myrank_ = I(0); s.comm_size_ = I(1); return s
@contract(H_ + 'growL(int const&, int const&, %s)' % VC, args={2: lambda env, nm, a: vec(env, nm, L_(env)[0])})
def _(c, s, lc, lm, y):
    L, l = s.L_, s.L_.m; c.require(and_(eq(L.n, l), eq(lc.v, l), ge(lm.v, l), eq(y.n, l)), 'sizes')
    A, Y = L.a, y.a; N = newmat(c, add(l, I(1)), add(l, I(1)))
    N.a = lambda i, j: ite(eq(j, l), R(0), ite(eq(i, l), Y(j), A(i, j)))
    c.destroy(L); s.L_ = N
@contract(H_ + 'growD(int const&, int const&, double const&)')
def _(c, s, lc, lm, x):
    D, l = s.D_, s.D_.n; c.require(and_(eq(lc.v, l), ge(lm.v, l)), 'sizes')
    A, X = D.a, x.v; N = EVL.newvec(c, add(l, I(1))) ; N.a = lambda i: ite(eq(i, l), X, A(i))
    c.destroy(D); s.D_ = N
@contract(H_ + 'updateL(%s, double const&)' % VC, args={0: lambda env, nm, a: vec(env, nm, L_(env)[0])})
def _(c, s, y, x):
    L, l = s.L_, s.L_.m; c.require(and_(eq(y.n, l), eq(L.n, l), eq(s.l_curr, l), eq(s.l_max, l), ge(l, I(1))), 'memory is full'); A, Y = L.a, y.a; k = sub(l, I(1))
    L.a = lambda i, j: ite(eq(i, k), ite(eq(j, k), R(0), Y(add(j, I(1)))), ite(lt(j, i), A(add(i, I(1)), add(j, I(1))), A(i, j)))
@contract(H_ + 'updateD(double const&)')
def _(c, s, x):
    D, l = s.D_, s.D_.n; c.require(ge(l, I(1)), 'not empty'); A, X = D.a, x.v; k = sub(l, I(1))
    D.a = lambda i: ite(eq(i, k), X, A(add(i, I(1))))
@contract(H_ + 'updateLogBarrierDiagonal(%s)' % VC, args={0: kvec('x')})
def _(c, s, d):
    X, sg = d.a, s.sigma; c.require(Forall(d.n, lambda j: ge(add(sg, X(j)), R(Fraction(1e-35)))), "positive definite")
    s.DhInv.a = lambda j: div(R(1), add(sg, X(j))); s._Dx.a = X; s.matrixChanged = TRUE
    return TRUE

# ------------------------------------------------------------------------- update for a new iterate
MG = 'hiop::hiopMatrix const&'
EPS = Fraction(1, 2 ** 52); SQEPS = Fraction(1, 2 ** 26)
def dot(n, f, h): return AllSum(Sum(n, lambda j: mul(f(j), h(j))))
def nrm(n, f): return sqrt(AllSum(Sum(n, lambda j: mul(f(j), f(j)))))
def save(c, s, it, gr, Jc, Jd):
    """what the next update compares with"""
    REG['hiop::hiopIterate::copyFrom(hiop::hiopIterate const&)'].spec(c, s.it_prev_, it)
    s.grad_f_prev_.a = gr.a; s.Jac_c_prev_.a = Jc.a; s.Jac_d_prev_.a = Jd.a
def dots(l, n, A, B, L, D):
    """memory invariant: L and D hold the cross products of the stored pairs, whose curvature is positive"""
    d = lambda i, j: dot(n, lambda k: A(i, k), lambda k: B(j, k))
    return (('L[i][j] = s_i^T y_j below the diagonal, 0 elsewhere', Forall(l, lambda i: Forall(l, lambda j: eq(L(i, j), ite(lt(j, i), d(i, j), R(0)))))),
            ('D[i] = s_i^T y_i', Forall(l, lambda i: eq(D(i), d(i, i)))),
            ('every stored pair has positive curvature', Forall(l, lambda i: gt(D(i), R(0)))))
def yts(n, B, d): return lambda i: dot(n, lambda j: B(i, j), d)
def rows(k, v, O): return lambda i, j: ite(eq(i, k), v(j), O(i, j))
def grow(l, n, d, y, A, B, L, D):
    """the memory with the pair (d, y) appended"""
    t, x = yts(n, B, d), dot(n, d, y)
    return rows(l, d, A), rows(l, y, B), lambda i, j: ite(eq(j, l), R(0), ite(eq(i, l), t(j), L(i, j))), lambda i: ite(eq(i, l), x, D(i))
def shift(l, n, d, y, A, B, L, D):
    """the memory with its oldest pair replaced by (d, y)"""
    t, x, k = yts(n, B, d), dot(n, d, y), sub(l, I(1)); up = lambda O: lambda i, j: O(add(i, I(1)), j)
    return rows(k, d, up(A)), rows(k, y, up(B)), lambda i, j: ite(eq(i, k), ite(eq(j, k), R(0), t(add(j, I(1)))), ite(lt(j, i), L(add(i, I(1)), add(j, I(1))), L(i, j))), lambda i: ite(eq(i, k), x, D(add(i, I(1))))
def memory_lemmas(c, s):
    if c.mode != 'verify': return
    sy = lambda x: TM.sym('mem.' + x, 'I'); l, n = sy('l'), sy('n')
    a2 = lambda x: (lambda a: lambda i, j: TM.sel(a, i, j))(TM.asym('mem.' + x, 'R', 2)); a1 = lambda x: (lambda a: lambda i: TM.sel(a, i))(TM.asym('mem.' + x, 'R'))
    m = (a2('S'), a2('Y'), a2('L'), a1('D')); d, y = a1('d'), a1('y')
    pre = [ge(n, I(0)), ge(l, I(0)), gt(dot(n, d, y), R(0))] + [g for k, g in dots(l, n, *m)]
    for nm, f, l2 in (('appending a pair', grow, add(l, I(1))), ('replacing the oldest pair', shift, l)):
        for k, g in dots(l2, n, *f(l, n, d, y, *m)): c.lemmas.append((nm + ' keeps the invariant: ' + k, tuple(pre + ([ge(l, I(1))] if f is shift else [])), g))
    for k, g in dots(I(0), n, *m): c.lemmas.append(('an empty memory satisfies the invariant: ' + k, (), g))
    sp, l0, m0, mm = s.ptr, s.l_curr, s.St_.m, s.l_max
    full = lambda v: and_(eq(v.l_curr, v.St_.m), eq(v.Yt_.m, v.St_.m), eq(v.L_.m, v.St_.m), eq(v.L_.n, v.St_.m), eq(v.D_.n, v.St_.m), le(v.St_.m, v.l_max))
    was = or_(full(s), and_(eq(l0, I(-1)), ge(mm, I(0)), *[eq(x, I(0)) for x in (m0, s.Yt_.m, s.L_.m, s.L_.n, s.D_.n)]))
    c.ensures.append(('the factors have the size of the memory, within its limit', lambda c2, res: implies(was, full(c2.wrap(sp, HC)))))
    lo, hi, sg = s.sigma_safe_min, s.sigma_safe_max, s.sigma
    c.ensures.append(('sigma within its safeguards', lambda c2, res: (lambda x: implies(and_(le(lo, hi), le(lo, sg), le(sg, hi)), and_(le(lo, x), le(x, hi))))(c2.wrap(sp, HC).sigma)))
UPD = {0: lambda env, nm, a: mkptr(env.obj('hiop::hiopIterate', 'it')), 1: kvec('x'), 2: lambda env, nm, a: mats(env, 'Jc', space(env)['c'][0]), 3: lambda env, nm, a: mats(env, 'Jd', space(env)['d'][0])}
@contract(H_ + 'update(hiop::hiopIterate const&, %s, %s, %s)' % (VC, MG, MG), args=UPD, cost=40)
def _(c, s, it, gr, Jc, Jd):
    N = s.nlp
    for z, sl, p in (('zl', 'sxl', 'ixl_'), ('zu', 'sxu', 'ixu_')): matches(c, getattr(it, z), getattr(N, p)); matches(c, getattr(it, sl), getattr(N, p))
    lc = s.l_curr; n = gr.n; first = lt(lc, I(0)); l = s.St_.m
    c.require(or_(first, and_(eq(lc, l), eq(s.Yt_.m, l), eq(s.L_.m, l), eq(s.L_.n, l), eq(s.D_.n, l))), 'the factors have the size of the memory')
    c.require(le(s.l_curr, s.l_max), 'memory within its limit')
    c.require(and_(le(I(1), s.sigma_update_strategy), le(s.sigma_update_strategy, I(5))), 'known strategy')
    memory_lemmas(c, s)
    def rest():
        X, XP = it.x.a, s.it_prev_.x.a; d = lambda j: sub(X(j), XP(j))
        G, GP = gr.a, s.grad_f_prev_.a; JC, JD, JCP, JDP = Jc.a, Jd.a, s.Jac_c_prev_.a, s.Jac_d_prev_.a; YC, YD = it.yc.a, it.yd.a; me, mi = Jc.m, Jd.m
        T = lambda k, A, Y: lambda j: Sum(k, lambda i: mul(A(i, j), Y(i)))
        y0 = lambda j: sub(G(j), GP(j)); y1 = lambda j: add(y0(j), T(me, JC, YC)(j)); y2 = lambda j: sub(y1(j), T(me, JCP, YC)(j)); y3 = lambda j: add(y2(j), T(mi, JD, YD)(j))
        y = lambda j: sub(y3(j), T(mi, JDP, YD)(j))
        big = ge(AllMax(RES.fnorm(n, d)), R(100 * EPS))
        for k, f in ((n, y0), (n, y1), (n, y2), (n, y3), (me, YC), (mi, YD)): c.require(implies(big, Forall(k, lambda j: DEN.fin(f(j)))), 'no NaN or infinity')
        sty, sn, yn = dot(n, d, y), nrm(n, d), nrm(n, y)
        good = and_(big, gt(sty, mul(mul(sn, yn), R(SQEPS))))
        def take():
            A, B, L, D = s.St_.a, s.Yt_.a, s.L_.a, s.D_.a; t = yts(n, B, d); k = sub(l, I(1))
            c.require(implies(gt(s.l_max, I(0)), and_(Forall(n, lambda j: DEN.fin(d(j))), Forall(l, lambda i: DEN.fin(t(i))))), 'no NaN or infinity')
            def append():
                A2, B2, L2, D2 = grow(l, n, d, y, A, B, L, D)
                for M, f in ((s.St_, A2), (s.Yt_, B2)): M.arr.write(1, n, (lambda f: lambda i, j: f(add(l, i), j))(f), r0=l); M.m_local_ = add(l, I(1))
                LN = newmat(c, add(l, I(1)), add(l, I(1))); LN.a = L2; c.destroy(s.L_); s.L_ = LN
                DN = EVL.newvec(c, add(l, I(1))); DN.a = D2; c.destroy(s.D_); s.D_ = DN
                s.l_curr = add(l, I(1))
            def replace():
                s.St_.a, s.Yt_.a, s.L_.a, s.D_.a = shift(l, n, d, y, A, B, L, D)
                s.l_curr = s.l_max
            c.when(gt(s.l_max, I(0)), lambda: c.when(lt(lc, s.l_max), append, replace))
            st = s.sigma_update_strategy; a, b = div(sty, mul(sn, sn)), div(mul(yn, yn), sty)
            v = ite(eq(st, I(1)), a, ite(eq(st, I(2)), b, ite(eq(st, I(3)), sqrt(div(div(mul(sn, sn), yn), yn)), ite(eq(st, I(4)), mul(R(Fraction(1, 2)), add(a, b)), s.sigma0))))
            s.sigma = maxr(minr(s.sigma_safe_max, v), s.sigma_safe_min)
        c.when(good, take)
    c.when(first, lambda: setattr(s, 'l_curr', add(lc, I(1))), rest)
    save(c, s, it, gr, Jc, Jd)
    return TRUE

# ------------------------------------------------------------------------- compact inverse representation
def weighted(n, A, w, B): return lambda i, j: Sum(n, lambda p: mul(mul(A(i, p), w(p)), B(j, p)))
def compact(s):
    """the matrix [S'(B0 DhInv B0 - B0)S  S'B0 DhInv Y - L; .  D + Y'DhInv Y] of the compact inverse (upper triangle), B0 = sigma*I"""
    l, n = s.St_.m, s.St_.n; A, B, L, D, dh, sg = s.St_.a, s.Yt_.a, s.L_.a, s.D_.a, s.DhInv.a, s.sigma
    b0 = lambda p: mul(dh(p), sg); th = lambda p: mul(add(b0(p), R(-1)), sg)
    v11, v12, v22 = weighted(n, A, th, A), weighted(n, A, b0, B), weighted(n, B, dh, B)
    up = lambda f: lambda i, j: AllSum(ite(le(i, j), f(i, j), f(j, i)))
    e = lambda i, j: add(up(v22)(i, j), ite(eq(i, j), D(i), R(0)))
    return lambda i, j: ite(lt(j, l), up(v11)(i, j), ite(lt(i, l), sub(AllSum(v12(i, sub(j, l))), L(i, sub(j, l))), e(sub(i, l), sub(j, l))))
def current(s):
    """the factorized matrix is the one of the current memory"""
    l = s.St_.m; l2 = scale(2, l); V, C = s.V_.a, compact(s)
    return and_(eq(s.V_.m, l2), eq(s.V_.n, l2), Forall(l2, lambda i: Forall(l2, lambda j: implies(le(i, j), eq(V(i, j), C(i, j))))))
@contract(H_ + 'factorizeV()', trusted=True)
def _(c, s): pass
@contract(H_ + 'updateInternalBFGSRepresentation()')
def _(c, s):
    l, n = s.St_.m, s.St_.n; l2 = scale(2, l); inv(c, s); c.require(ge(l, I(1)), 'memory not empty')
    V, O = compact(s), s.V_.a
    def new(): N = newmat(c, l2, l2); c.destroy(s.V_); s.V_ = N
    def old(): s.V_.a = lambda i, j: O(i, j)
    c.require(eq(s.V_.m, s.V_.n), 'square')
    isnew = not_(eq(s.V_.m, l2)); c.when(isnew, new)
    s.V_.a = lambda i, j: ite(and_(le(l, i), lt(j, l)), ite(isnew, R(0), O(i, j)), V(i, j))
    W = s.V_.a; c.destroy(s._Vmat); M = c.new(DC); FAC.mcopy(c, M, s.V_); M.a = lambda i, j: ite(lt(j, i), W(j, i), W(i, j)); s._Vmat = M
    s.matrixChanged = FALSE
    if c.mode == 'verify':
        sp = s.ptr; c.ensures.append(('the factorized matrix is the one of the current memory', lambda c2, res: current(c2.wrap(sp, HC))))
# the triangular solve of LAPACK: an unspecified function of the right-hand side; it reports success
INV_ = 'inverse of the compact matrix'
def vinv(N, r): return lambda j: TM.App(INV_, [j], [(N, r)], 'R')
@intrin.ext(r'^dsytrs_$')
def _(cx):
    N, k = intrin.ival(cx, cx.args[1]), intrin.ival(cx, cx.args[2]); b = toptr(cx.args[6]); c = CT.Ctx(cx.ex, cx.st, 'call', cx.mod)
    for q in (4, 7): cx.ex.oblige('pre', cx.st, eq(intrin.ival(cx, cx.args[q]), N), 'leading dimensions of DSYTRS')
    if isc(k) and cv(k) == 1:
        A = Arr(c, b, 'R'); X = A.snap(); A.write(N, vinv(N, X))
    else:
        A = Arr2(c, b, N); X = A.snap(); A.write(k, N, lambda i, j: vinv(N, lambda q: X(i, q))(j))
    cx.ex.store(cx.st, cx.args[8], I(0), ('i', 32), cx.mod); return S.UNDEF
def solvable(c, s):
    l = s.St_.m; inv(c, s); c.require(ge(l, I(1)), 'memory not empty'); c.require(current(s), 'the factorized matrix is the one of the current memory')
    c.require(and_(eq(s._Vmat.m, scale(2, l)), eq(s._Vmat.n, scale(2, l)), eq(s._Vmat.n_global_, s._Vmat.n)), 'saved matrix')
def L2_(env): v = env.sym('l2', 'I'); env.fact(eq(v, scale(2, L_(env)[0]))); return v
lvec = lambda env, nm, a: vec(env, nm, L_(env)[0])
def both(l, a, b): return lambda j: ite(lt(j, l), a(j), b(sub(j, l)))
def nonan(c, s, r):
    """the diagnostic residual of the solve involves no NaN or infinity"""
    N = scale(2, s.St_.m); z = vinv(N, r); f = DEN.mvprod(s._Vmat, R(1), r, R(-1), z)
    c.require(Forall(N, lambda j: and_(DEN.fin(r(j)), DEN.fin(z(j)), DEN.fin(f(j)))), 'no NaN or infinity')
@contract(H_ + 'solveWithV(%s, %s)' % (V1, V1), args={0: lvec, 1: lvec}, noconc=True, cost=5)
def _(c, s, rs, ry):
    solvable(c, s); l = s.St_.m; c.require(and_(eq(rs.n, l), eq(ry.n, l), eq(rs.n_, l), eq(ry.n_, l)), 'sizes')
    r = both(l, rs.a, ry.a); z = vinv(scale(2, l), r); nonan(c, s, r)
    rs.a = z; ry.a = lambda j: z(add(j, l))
@contract(H_ + 'solve(%s, %s)' % (VC, V1), args={0: kvec('x'), 1: kvec('x')}, variants=CHANGED, vmode='mem', noconc=True, cost=50)
def _(c, s, rhs, x):
    """x = DhInv*rhs - DhInv*[B0*S Y] * V^-1 * [S'*B0; Y']*DhInv*rhs"""
    l, n = s.St_.m, s.St_.n; inv(c, s); c.require(ge(l, I(1)), 'memory not empty'); c.require(and_(eq(s.V_.m, s.V_.n)), 'square')
    c.require(or_(tobool(s.matrixChanged), and_(current(s), eq(s._Vmat.m, scale(2, l)), eq(s._Vmat.n, scale(2, l)), eq(s._Vmat.n_global_, s._Vmat.n))), 'the factorized matrix is current unless marked as changed')
    X, dh, A, B, sg = rhs.a, s.DhInv.a, s.St_.a, s.Yt_.a, s.sigma
    c.when(tobool(s.matrixChanged), lambda: c.effect(H_ + 'updateInternalBFGSRepresentation()', s))
    u = lambda j: mul(X(j), dh(j)); q = lambda j: mul(u(j), sg)
    fin = lambda n, f: c.require(Forall(n, lambda j: DEN.fin(f(j))), 'no NaN or infinity')
    sp, yp = [lambda i, M=M, w=w: AllSum(Sum(n, lambda j: mul(M(i, j), w(j)))) for M, w in ((A, q), (B, u))]
    r = both(l, sp, yp); z = vinv(scale(2, l), r)
    for k, f in ((n, dh), (n, X), (n, u), (n, q), (l, sp), (l, yp)): fin(k, f)
    nonan(c, s, r)
    T = lambda M, o: lambda j: Sum(l, lambda i: mul(M(i, j), z(add(i, o))))
    t1 = lambda j: mul(T(A, I(0))(j), sg); t2 = lambda j: add(t1(j), T(B, l)(j))
    W1 = s._n_vec1.a; fin(n, W1); fin(n, t1)
    f = lambda j: sub(u(j), mul(t2(j), dh(j))); fin(n, f)
    x.a = f
ALL = [n for n in REG if n.startswith(H_) and not REG[n].o.get('trusted')]

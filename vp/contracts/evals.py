"""Contracts of the evaluations of the user's problem: what is passed to the user's callbacks and what is made of their results.
The callbacks are uninterpreted functions of everything they are given (problem sizes, the point, the new_x flag, index sets)."""
from .base import *
from . import dense as DEN, nlp as NLP, transforms as TRF, factory as FAC, iterate as ITR
from .transforms import uspace, VARIANTS, RM, RX, SC, BR, elems, kjac
from .nlp import self_nlp, num, inum, isopt
SRC = TRF.SRC + [x for x in FAC.SRC + ['Optimization/hiopAlgFilterIPM.cpp'] if x not in TRF.SRC]
P = NLP.P; PD = 'hiop::hiopNlpDenseConstraints::'
V1 = 'hiop::hiopVector&'; M1 = 'hiop::hiopMatrix&'
EVAL, REPORT, START = [], [], []
def K(lst, name, **kw):
    def d(f): lst.append(name); return contract(name, **{'variants': VARIANTS, **kw, 'args': {'this': self_nlp, **kw.get('args', {})}})(f)
    return d
# ------------------------------------------------------------------ ghost record of what a callback was given
def record(c, name, scal=(), arrs=()):
    """scal: terms, arrs: [(n, fn)]"""
    env = c.ex.env; G = env.__dict__.setdefault('records', {})
    for k, x in enumerate(scal):
        nm = 'ghost:%s.%d' % (name, k); so = 'I' if x.sort == 'B' else x.sort
        if nm not in G:
            b = S.Block(nm, 'obj'); b.members = {}; b.over = {}; b.env = env; b.cls = None
            b.mkcell = (lambda nm, so: lambda off, ty: env.sym(nm, so))(nm, so); G[nm] = b
        c.ex.store(c.st, mkptr(G[nm]), b2i(x) if x.sort == 'B' else x, ('f', 'double') if so == 'R' else ('i', 64), c.mod)
    for k, (n, f) in enumerate(arrs):
        nm = 'ghost:%s.a%d' % (name, k)
        if nm not in G: G[nm] = env.darr(nm, n)
        Arr(c, mkptr(G[nm])).write(n, f)
b2i = S.b2i
def scalar(c, x, ty=('i', 32)):
    """by value or by reference"""
    return x if isinstance(x, T) else c.ex.load(c.st, toptr(x), ty, c.mod)
def rawp(v, m='data_'):
    if isinstance(v, Arr): return v.ptr
    if isinstance(v, View): return v.rawptr('data_') if isinstance(v, VecView) else v.arr.ptr if isinstance(v, IntVecView) else v.data if isinstance(v, MatView) else v.ptr
    return toptr(v)
def darr_(c, p): return Arr(c, rawp(p)).snap()
def iarr_(c, p): return Arr(c, rawp(p), 'I', 4).snap()
def nu(c): return uspace(c.env)[0]
def bval(x): return b2i(x) if x.sort == 'B' else x
def out(c, p, n, name, sc, arrs): Arr(c, rawp(p)).write(n, lambda j: TM.App(name, list(sc) + [j], arrs, 'R'))
def okflag(name, sc, arrs): return TM.App('ok:' + name, list(sc), arrs, 'B')
CB = {}
def cb(slots, name, cls='Base'):
    """a user callback: the same function is its meaning in the code (virtual call) and in the specifications"""
    def d(f):
        CB[name] = f
        @intrin.ext('|'.join(r'^virt:hiop::hiopInterface%s:%d$' % (k, n) for k in cls.split() for n in slots))
        def h(cx):
            cx.env = cx.ex.env
            r = f(cx, *cx.args[1:]); return S.UNDEF if r is None else r
        return f
    return d
def user(c, name, *a): return CB[name](c, *a)
ALLI = 'Base DenseConstraints'
@cb([6], 'eval_f', ALLI)
def _(c, n, x, new, f):
    sc = [scalar(c, n), bval(new)]; ar = [(nu(c), darr_(c, x))]
    c.ex.store(c.st, rawp(f), TM.App('eval_f', sc, ar, 'R'), ('f', 'double'), c.mod)
    return okflag('eval_f', sc, ar)
@cb([7], 'eval_grad_f', ALLI)
def _(c, n, x, new, g):
    sc = [scalar(c, n), bval(new)]; ar = [(nu(c), darr_(c, x))]
    out(c, g, nu(c), 'eval_grad_f', sc, ar); return okflag('eval_grad_f', sc, ar)
@cb([8], 'eval_cons', ALLI)
def _(c, n, m, k, idx, x, new, g):
    k = scalar(c, k); sc = [scalar(c, n), scalar(c, m), k, bval(new)]; ar = [(k, iarr_(c, idx)), (nu(c), darr_(c, x))]
    out(c, g, k, 'eval_cons', sc, ar); return okflag('eval_cons', sc, ar)
@cb([9], 'eval_cons_all', ALLI)
def _(c, n, m, x, new, g):
    m = scalar(c, m); sc = [scalar(c, n), m, bval(new)]; ar = [(nu(c), darr_(c, x))]
    out(c, g, m, 'eval_cons_all', sc, ar); return okflag('eval_cons_all', sc, ar)
def out2(c, p, m, name, sc, ar): Arr2(c, rawp(p), nu(c)).write(m, nu(c), lambda i, j: TM.App(name, list(sc) + [i, j], ar, 'R'))
@cb([19], 'eval_Jac_cons', 'DenseConstraints')
def _(c, n, m, k, idx, x, new, J):
    k = scalar(c, k); sc = [scalar(c, n), scalar(c, m), k, bval(new)]; ar = [(k, iarr_(c, idx)), (nu(c), darr_(c, x))]
    out2(c, J, k, 'eval_Jac_cons', sc, ar); return okflag('eval_Jac_cons', sc, ar)
@cb([20], 'eval_Jac_cons_all', 'DenseConstraints')
def _(c, n, m, x, new, J):
    m = scalar(c, m); sc = [scalar(c, n), m, bval(new)]; ar = [(nu(c), darr_(c, x))]
    out2(c, J, m, 'eval_Jac_cons_all', sc, ar); return okflag('eval_Jac_cons_all', sc, ar)
@cb([12], 'get_x0', ALLI)
def _(c, n, x):
    sc = [scalar(c, n)]; ar = [(nu(c), darr_(c, x))]; out(c, x, nu(c), 'get_x0', sc, ar); return okflag('get_x0', sc, ar)
def nl(c): return space(c.env)['x'][0]
@cb([13], 'get_start', ALLI)
def _(c, n, m, x, da, zl, zu, lam, sa, d):
    m = scalar(c, m); mi = space(c.env)['d'][0]; sc = [scalar(c, n), m]; ar = [(nu(c), darr_(c, x))]
    for p, k, w in ((x, nu(c), 'x'), (zl, nl(c), 'zl'), (zu, nl(c), 'zu'), (lam, m, 'lam'), (d, mi, 'd')): out(c, p, k, 'get_start.' + w, sc, ar)
    for p, w in ((da, 'duals'), (sa, 'slacks')): c.ex.store(c.st, rawp(p), okflag('get_start.' + w, sc, ar), ('i', 8), c.mod)
    return okflag('get_start', sc, ar)
@cb([14], 'get_warm', ALLI)
def _(c, n, m, x, zl, zu, lam, d, vl, vu):
    m = scalar(c, m); mi = space(c.env)['d'][0]; sc = [scalar(c, n), m]; ar = [(nu(c), darr_(c, x))]
    for p, k, w in ((x, nu(c), 'x'), (zl, nl(c), 'zl'), (zu, nl(c), 'zu'), (lam, m, 'lam'), (d, mi, 'd'), (vl, mi, 'vl'), (vu, mi, 'vu')): out(c, p, k, 'get_warm.' + w, sc, ar)
    return okflag('get_warm', sc, ar)
@cb([15], 'solution', ALLI)
def _(c, status, n, x, zl, zu, m, g, lam, f):
    record(c, 'solution', [status, n, m, f], [(nl(c), darr_(c, x)), (nl(c), darr_(c, zl)), (nl(c), darr_(c, zu)), (m, darr_(c, g)), (m, darr_(c, lam))])
@cb([16], 'iterate', ALLI)
def _(c, it, f, lf, n, x, zl, zu, mi, s_, m, g, lam, *rest):
    sc = [it, f, lf, n, mi, m] + list(rest); ar = [(nl(c), darr_(c, x)), (nl(c), darr_(c, zl)), (nl(c), darr_(c, zu)), (mi, darr_(c, s_)), (m, darr_(c, g)), (m, darr_(c, lam))]
    record(c, 'iterate', sc, ar); return okflag('iterate', sc, ar)
@cb([17], 'full_iterate', ALLI)
def _(c, x, zl, zu, yc, yd, s_, vl, vu):
    me, mi = space(c.env)['c'][0], space(c.env)['d'][0]
    ar = [(k, darr_(c, p)) for k, p in ((nl(c), x), (nl(c), zl), (nl(c), zu), (me, yc), (mi, yd), (mi, s_), (mi, vl), (mi, vu))]
    record(c, 'full_iterate', [], ar); return okflag('full_iterate', [], ar)
@cb([18], 'force_x', ALLI)
def _(c, n, x):
    sc = [n]; ar = [(nl(c), darr_(c, x))]; out(c, x, nl(c), 'force_x', sc, ar); return okflag('force_x', sc, ar)
# ------------------------------------------------------------------ shapes
_shapeN = SHAPE[NLPC]
BUF = dict(cons_body_='m', cons_lambdas_='m', temp_eq_='c', temp_ineq_='d', temp_x_='x')
def mapping(env, nm, k):
    n = space(env)[k][0]; return mkptr(env.obj('hiop::hiopVectorIntSeq', nm, n=n))
def shape_nlp4(env, b, **kw):
    _shapeN(env, b, **kw)
    b.over['cons_eq_mapping_'] = mapping(env, 'nlp.eqmap', 'c'); b.over['cons_ineq_mapping_'] = mapping(env, 'nlp.ineqmap', 'd')
    m = env.sym('mcons', 'I'); env.fact(eq(m, add(space(env)['c'][0], space(env)['d'][0])))
    env.set(b, 'n_cons_', m)
    for k, w in BUF.items(): b.over[k] = maybe(env, 'nlp.no_' + k, vec(env, 'nlp.' + k, m) if w == 'm' else KIND[w](env, 'nlp.' + k))
    env.set(b, 'nlp_evaluated_', FALSE)
    n, il, g_ = uspace(env) if getattr(env, 'variant', None) else space(env)['x']
    b.over['cons_Jac_'] = maybe(env, 'nlp.no_jac', mkptr(env.obj(DEN.DC, 'nlp.cons_Jac', m=m, n=space(env)['x'][0], local=False, ng=space(env)['x'][2], jl=space(env)['x'][1])))
    b.over['log'] = mkptr(ghostobj(env, 'log'))
    o, sz, t = b.members['runStats']; b.ignore |= set(range(o, o + sz))
def thecomm(env):
    if not hasattr(env, 'comm0'): env.comm0 = ghostobj(env, 'comm')
    return env.comm0
def ghostobj(env, nm):
    o = S.Block(nm, 'obj'); o.members = {}; o.over = {}; o.cls = None; return o
SHAPE[NLPC] = shape_nlp4
def valid(c, s):
    """the mappings hold indexes of constraints"""
    for m in (s.cons_eq_mapping_, s.cons_ineq_mapping_):
        A = m.a; n = s.n_cons_; c.require(Forall(m.n, lambda i: and_(le(I(0), A(i)), lt(A(i), n))), 'constraint indexes')
def covered(c, s):
    """every constraint is in one of the two mappings (established by process_constraints)"""
    A, B = s.cons_eq_mapping_, s.cons_ineq_mapping_; na, nb, A, B = A.n, B.n, A.a, B.a
    c.require(Forall(s.n_cons_, lambda j: or_(ge(Last(na, lambda i: eq(A(i), j)), I(0)), ge(Last(nb, lambda i: eq(B(i), j)), I(0)))), 'every constraint in a mapping')
def norm(c, s):
    for t in elems(c, s.nlp_transformations_):
        if t.cls == RM: return False
    return True
# ------------------------------------------------------------------ evaluations
def inv_x(c, s, x, new): return s.nlp_transformations_.walk('apply_inv_to_x(%s, bool const&)' % V1, x, Val(new), inv=True)
def npre(s): return s.nlp_transformations_.n_vars_usernlp
@K(EVAL, P + 'eval_f(%s, bool, double&)' % V1, args={0: kvec('x')})
def _(c, s, x, new, f):
    xx = inv_x(c, s, x, new); r = user(c, 'eval_f', npre(s), xx, new, f.ptr)
    v = f.v
    for t in elems(c, s.nlp_transformations_):
        if t.cls == SC: v = mul(t.scale_factor_obj, v)
    f.v = v
    return r
@K(EVAL, P + 'eval_grad_f(%s, bool, %s)' % (V1, V1), args={0: kvec('x'), 2: kvec('x')})
def _(c, s, x, new, g):
    T_ = s.nlp_transformations_
    xx = inv_x(c, s, x, new); gg = T_.walk('apply_inv_to_grad_obj(%s)' % V1, g, inv=True)
    r = user(c, 'eval_grad_f', npre(s), xx, new, gg)
    T_.walk('apply_to_grad_obj(%s)' % V1, gg); return r
for w, k, mp, mm in (('c', 'eq', 'cons_eq_mapping_', 'n_cons_eq_'), ('d', 'ineq', 'cons_ineq_mapping_', 'n_cons_ineq_')):
    def ev(c, s, x, new, v, k=k, mp=mp, mm=mm):
        xx = inv_x(c, s, x, new)
        r = user(c, 'eval_cons', npre(s), s.n_cons_, getattr(s, mm), getattr(s, mp), xx, new, v)
        s.nlp_transformations_.walk('apply_to_cons_%s(%s, int const&)' % (k, V1), v, Val(getattr(s, mm))); return r
    K(EVAL, P + 'eval_%s(%s, bool, %s)' % (w, V1, V1), args={0: kvec('x'), 2: kvec(w)})(ev)
    def evj(c, s, x, new, J, k=k, mp=mp, mm=mm):
        T_ = s.nlp_transformations_; m = Val(getattr(s, mm))
        xx = inv_x(c, s, x, new); JJ = T_.walk('apply_inv_to_jacob_%s(%s, int const&)' % (k, M1), J, m, inv=True)
        r = user(c, 'eval_Jac_cons', npre(s), s.n_cons_, getattr(s, mm), getattr(s, mp), xx, new, JJ)
        T_.walk('apply_to_jacob_%s(%s, int const&)' % (k, M1), JJ, m); return r
    K(EVAL, PD + 'eval_Jac_%s(%s, bool, %s)' % (w, V1, M1), args={0: kvec('x'), 2: kjac(w, 0)})(evj)
EV = {w: REG[P + 'eval_%s(%s, bool, %s)' % (w, V1, V1)].spec for w in 'cd'}
EJ = {w: REG[PD + 'eval_Jac_%s(%s, bool, %s)' % (w, V1, M1)].spec for w in 'cd'}
def newvec(c, n):
    v = c.new('hiop::hiopVectorPar'); FAC.vinit(c, v, n, Arr(c, NULL, 'I', 4), mkptr(c.ex.gblock('ompi_mpi_comm_self'))); return v
def setnew(c, s, m, mk):
    """member m holds a buffer, allocated on first use"""
    p = getattr(s, m).ptr
    c.when(ptr_eq(p, NULL), lambda: setattr(s, m, mk(c)))
    return getattr(s, m)
@K(EVAL, P + 'alloc_dual_vec() const')
def _(c, s): return newvec(c, s.n_cons_)
def apply_(c, s, k, v): s.nlp_transformations_.walk('apply_to_cons_%s(%s, int const&)' % (k, V1), v, Val(s.n_cons_eq_ if k == 'eq' else s.n_cons_ineq_))
def onecall(c, s, x, new, cc, dd):
    valid(c, s)
    xx = inv_x(c, s, x, new); b = s.cons_body_
    r = user(c, 'eval_cons_all', npre(s), s.n_cons_, xx, new, b)
    c.effect(VEC.P + 'copy_to_two_vec_w_pattern(hiop::hiopVector&, %s, hiop::hiopVector&, %s) const' % (VEC.VI, VEC.VI), b, cc, s.cons_eq_mapping_, dd, s.cons_ineq_mapping_)
    apply_(c, s, 'eq', cc); apply_(c, s, 'ineq', dd); return r
def discover(c, s, one, two, alloc, all_):
    """separate or one-call evaluation: decided at the first call, from what the user's callbacks return"""
    t = s.cons_eval_type_; c.require(and_(le(I(-1), t), le(t, I(1))), 'evaluation type')
    st = {}
    def sep(first):
        a = one() if first is None else first
        st['r'] = FALSE
    r = [FALSE]
    def separate():
        a = one(); b = [FALSE]
        def second(): b[0] = two()
        c.when(a, second); return and_(a, b[0])
    def first():
        a = one()
        def bad():
            b = two()
            s.cons_eval_type_ = ite(b, I(0), I(1)); w = []
            def single(): alloc(); w.append(all_())
            c.when(not_(b), single); r[0] = and_(not_(b), w[0]) if w else FALSE
        def good(): s.cons_eval_type_ = I(0); r.append(two())
        c.when(a, good, bad); g = r.pop() if len(r) > 1 else FALSE
        return ite(a, g, r[0])
    def later():
        v = [FALSE, FALSE]
        def x0(): v[0] = separate()
        def x1(): v[1] = all_()
        c.when(eq(t, I(0)), x0, x1); return ite(eq(t, I(0)), v[0], v[1])
    o = [FALSE, FALSE]
    def f(): o[0] = first()
    def g(): o[1] = later()
    c.when(eq(t, I(-1)), f, g); return ite(eq(t, I(-1)), o[0], o[1])
@contract(PD + 'alloc_Jac_cons()', trusted=True, args={'this': self_nlp})
def _(c, s):
    v = c.new(DEN.DC); n, il, ng = space(c.env)['x']
    FAC.mset(c, v, s.n_cons_, ng, n, il, mkptr(thecomm(c.env))); return v
def buffers(c, s):
    t = s.cons_eval_type_; B, J = s.cons_body_, s.cons_Jac_
    c.require(implies(eq(t, I(-1)), and_(B.isnull(), J.isnull())), 'no buffers before the first evaluation'); c.require(implies(eq(t, I(1)), not_(or_(B.isnull(), J.isnull()))), 'buffers')
@K(EVAL, P + 'eval_c_d(%s, bool, %s, %s)' % (V1, V1, V1), args={0: kvec('x'), 2: kvec('c'), 3: kvec('d')}, cost=9)
def _(c, s, x, new, cc, dd):
    buffers(c, s)
    def alloc(): s.cons_body_ = newvec(c, s.n_cons_); s.cons_Jac_ = c.effect(PD + 'alloc_Jac_cons()', s)
    return discover(c, s, lambda: EV['c'](c, s, x, new, cc), lambda: EV['d'](c, s, x, new, dd), alloc, lambda: onecall(c, s, x, new, cc, dd))
CPR = DEN.D + 'copyRowsFrom(hiop::hiopMatrix const&, int const*, int)'
def jac_onecall(c, s, x, new, Jc, Jd):
    valid(c, s); c.require(TRUE if norm(c, s) else FALSE, 'no fixed variables removed')
    xx = inv_x(c, s, x, new); J = s.cons_Jac_
    r = user(c, 'eval_Jac_cons_all', npre(s), s.n_cons_, xx, new, J)
    for A, mp, k, m in ((Jc, s.cons_eq_mapping_, 'eq', s.n_cons_eq_), (Jd, s.cons_ineq_mapping_, 'ineq', s.n_cons_ineq_)):
        M = mp.a; X = J.a; A.arr.write(m, A.n, (lambda M, X: lambda i, j: X(M(i), j))(M, X))
    for A, k, m in ((Jc, 'eq', s.n_cons_eq_), (Jd, 'ineq', s.n_cons_ineq_)):
        s.nlp_transformations_.walk('apply_to_jacob_%s(%s, int const&)' % (k, M1), A, Val(m))
    return r
NORM = [v for v in VARIANTS if v[0] != RM]
@K(EVAL, PD + 'eval_Jac_c_d_interface_impl(%s, bool, %s, %s)' % (V1, M1, M1), args={0: kvec('x'), 2: kjac('c', 0), 3: kjac('d', 0)}, variants=NORM, cost=9)
def _(c, s, x, new, Jc, Jd): c.require(not_(s.cons_Jac_.isnull()), 'buffer'); return jac_onecall(c, s, x, new, Jc, Jd)
@K(EVAL, P + 'eval_Jac_c_d(%s, bool, %s, %s)' % (V1, M1, M1), args={0: kvec('x'), 2: kjac('c', 0), 3: kjac('d', 0)}, variants=NORM, cost=9)
def _(c, s, x, new, Jc, Jd):
    buffers(c, s)
    def alloc(): s.cons_body_ = newvec(c, s.n_cons_); s.cons_Jac_ = c.effect(PD + 'alloc_Jac_cons()', s)
    return discover(c, s, lambda: EJ['c'](c, s, x, new, Jc), lambda: EJ['d'](c, s, x, new, Jd), alloc, lambda: jac_onecall(c, s, x, new, Jc, Jd))
# ------------------------------------------------------------------ what is reported to the user
W2 = VEC.P + 'copy_from_two_vec_w_pattern(%s, %s, %s, %s)' % (VEC.V, VEC.VI, VEC.V, VEC.VI)
def gather(c, s, dst, a, b): c.effect(W2, dst, a, s.cons_eq_mapping_, b, s.cons_ineq_mapping_)
def inv_walk(c, s, k, v, inv): s.nlp_transformations_.walk('apply_%sto_cons_%s(%s, int const&)' % ('inv_' if inv else '', k, V1), v, Val(s.n_cons_eq_ if k == 'eq' else s.n_cons_ineq_), inv=inv)
def darg(k): return lambda env, nm, args: mkptr(env.darr(nm, env.sym('mcons', 'I') if k == 'm' else space(env)[k][0]))
def mul_all(v, k): A = v.a; v.a = lambda j: mul(k, A(j))
@K(REPORT, P + 'get_dual_solutions(hiop::hiopIterate const&, double*, double*, double*)', args={1: darg('x'), 2: darg('x'), 3: darg('m')})
def _(c, s, it, zl, zu, lam):
    valid(c, s); covered(c, s); n = it.zl.n; f = div(R(1), NLP.obj_scale(c, s)); sc = c.env.variant[2]
    if sc:
        tx = setnew(c, s, 'temp_x_', lambda c: VEC._mkvec(c, s.xl_, False)); te = setnew(c, s, 'temp_eq_', lambda c: VEC._mkvec(c, s.c_rhs_, False)); ti = setnew(c, s, 'temp_ineq_', lambda c: VEC._mkvec(c, s.dl_, False))
    L = setnew(c, s, 'cons_lambdas_', lambda c: newvec(c, s.n_cons_))
    for v, o in ((it.zl, zl), (it.zu, zu)):
        A = v.a
        if sc: tx.a = (lambda A: lambda j: mul(f, A(j)))(A); A = tx.a
        o.write(n, A)
    yc, yd = it.yc, it.yd
    if sc:
        te.a = yc.a; ti.a = yd.a; inv_walk(c, s, 'eq', te, 0); inv_walk(c, s, 'ineq', ti, 0); yc, yd = te, ti
    gather(c, s, L, yc, yd)
    if sc: mul_all(L, f)
    lam.write(s.n_cons_, L.a)
@K(REPORT, P + 'user_x(hiop::hiopVector&, double*)', args={0: kvec('x'), 1: lambda env, nm, args: mkptr(env.darr(nm, uspace(env)[0]))})
def _(c, s, x, o):
    xx = inv_x(c, s, x, TRUE); X = xx.a; o.write(xx.n, X)
@K(REPORT, P + 'user_obj(double)')
def _(c, s, f):
    for t in elems(c, s.nlp_transformations_):
        if t.cls == SC: f = div(f, t.scale_factor_obj)
    return f
def user_duals(c, s, yc, yd, zs, f, back):
    """scaled to unscaled values of multipliers (back: the other way)"""
    for k, v in (('eq', yc), ('ineq', yd)): inv_walk(c, s, k, v, back)
    for v in (yc, yd, *zs): mul_all(v, f)
@K(REPORT, P + 'user_callback_solution(hiop::hiopSolveStatus, hiop::hiopVector const&, %s, double)' % ', '.join([V1] * 6), args={k + 1: kvec(w) for k, w in enumerate('xxxcdcd')}, cost=9)
def _(c, s, st, x, zl, zu, cc, dd, yc, yd, f):
    valid(c, s); covered(c, s); sc = c.env.variant[2]; o = NLP.obj_scale(c, s)
    L = setnew(c, s, 'cons_lambdas_', lambda c: newvec(c, s.n_cons_))
    if sc: user_duals(c, s, yc, yd, (zl, zu), div(R(1), o), 0)
    gather(c, s, L, yc, yd)
    B = setnew(c, s, 'cons_body_', lambda c: VEC._mkvec(c, L, False))
    if sc: inv_walk(c, s, 'eq', cc, 1); inv_walk(c, s, 'ineq', dd, 1)
    gather(c, s, B, cc, dd)
    user(c, 'solution', st, s.n_vars_, x, zl, zu, s.n_cons_, B, L, div(f, o))
    if sc:
        user_duals(c, s, yc, yd, (zl, zu), o, 1)
        inv_walk(c, s, 'eq', cc, 0); inv_walk(c, s, 'ineq', dd, 0)
CVs = 'hiop::hiopVector const&'
@K(REPORT, P + 'user_callback_iterate(int, double, double, %s, double, double, double, double, double, double, int)' % ', '.join([CVs] * 8), args={k + 3: kvec(w) for k, w in enumerate('xxxdcdcd')}, cost=9)
def _(c, s, it, f, lf, x, zl, zu, sl, cc, dd, yc, yd, *rest):
    valid(c, s); covered(c, s)
    L = setnew(c, s, 'cons_lambdas_', lambda c: newvec(c, s.n_cons_)); gather(c, s, L, yc, yd)
    B = setnew(c, s, 'cons_body_', lambda c: VEC._mkvec(c, L, False)); gather(c, s, B, cc, dd)
    return user(c, 'iterate', it, div(f, NLP.obj_scale(c, s)), lf, s.n_vars_, x, zl, zu, s.n_cons_ineq_, sl, s.n_cons_, B, L, *rest)
@K(REPORT, P + 'user_callback_full_iterate(%s)' % ', '.join([V1] * 8), args={k: kvec(w) for k, w in enumerate('xxxcdddd')})
def _(c, s, x, zl, zu, yc, yd, sl, vl, vu): return user(c, 'full_iterate', x, zl, zu, yc, yd, sl, vl, vu)
# ------------------------------------------------------------------ starting points
def duals_back(c, s, lam, yc, yd): c.effect(VEC.P + 'copy_to_two_vec_w_pattern(hiop::hiopVector&, %s, hiop::hiopVector&, %s) const' % (VEC.VI, VEC.VI), lam, yc, s.cons_eq_mapping_, yd, s.cons_ineq_mapping_)
AX = 'apply_to_x(%s, %s)' % (V1, V1)
def back_x(c, s, xu, x):
    for t in elems(c, s.nlp_transformations_):
        if t.cls == RM: TRF.tstep(c, t, AX, xu, x)
BP = 'bool&'
@K(START, P + 'get_starting_point(%s, bool&, %s, bool&, %s)' % (V1, ', '.join([V1] * 4), V1), args={k: kvec(w) for k, w in zip((0, 2, 3, 4, 5, 7), 'xxxcdd')}, cost=9)
def _(c, s, x, da, zl, zu, yc, yd, sa, d):
    valid(c, s)
    lam = newvec(c, add(yc.n, yd.n)); xu = inv_x(c, s, x, TRUE)
    r = user(c, 'get_start', npre(s), s.n_cons_, xu, da.ptr, zl, zu, lam, sa.ptr, d)
    c.when(da.v, lambda: duals_back(c, s, lam, yc, yd))
    r2 = [FALSE]
    def again(): r2[0] = user(c, 'get_x0', npre(s), xu)
    c.when(not_(r), again); ok = or_(r, r2[0])
    c.when(ok, lambda: back_x(c, s, xu, x)); return ok
@K(START, P + 'get_warmstart_point(%s)' % ', '.join([V1] * 8), args={k: kvec(w) for k, w in enumerate('xxxcdddd')}, cost=9)
def _(c, s, x, zl, zu, yc, yd, d, vl, vu):
    valid(c, s)
    lam = newvec(c, add(yc.n, yd.n)); xu = inv_x(c, s, x, TRUE)
    r = user(c, 'get_warm', npre(s), s.n_cons_, xu, zl, zu, lam, d, vl, vu)
    duals_back(c, s, lam, yc, yd)
    r2 = [FALSE]
    def again(): r2[0] = user(c, 'get_x0', npre(s), xu)
    c.when(not_(r), again); ok = or_(r, r2[0])
    c.when(ok, lambda: back_x(c, s, xu, x)); return ok
for k, m in (('primal_vec', 'xl_'), ('dual_eq_vec', 'c_rhs_'), ('dual_ineq_vec', 'dl_')):
    @K(EVAL, P + 'alloc_%s() const' % k)
    def _(c, s, m=m): return VEC._mkvec(c, getattr(s, m), False)
ALL = EVAL + REPORT + START

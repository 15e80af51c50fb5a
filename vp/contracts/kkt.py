"""Contracts of the KKT linear systems: reduction of the full linearized optimality conditions to the compressed systems, recovery of
the eliminated directions, the full-space operator and the reported error. The Hessian and the Jacobians are arbitrary operators
(uninterpreted functions of the vector they are applied to); the solution of a compressed system is an arbitrary function of its
right-hand side."""
from .base import *
from . import residual as RES, inertia as INE, nlp as NLP
from .residual import counts, resid_zero
from .iterate import BL, g
from .nlp import num
SRC = RES.SRC + [x for x in ['Optimization/hiopKKTLinSys.cpp', 'Optimization/hiopPDPerturbation.cpp', 'LinAlg/hiopVectorCompoundPD.cpp', 'Optimization/hiopFactAcceptor.cpp', 'Optimization/hiopNlpTransforms.cpp'] if x not in RES.SRC]
H_ = 'hiop::'; K_ = 'hiop::hiopKKTLinSys'
R_ = 'hiop::hiopResidual const*'; I_ = 'hiop::hiopIterate*'; IC = 'hiop::hiopIterate const*'; VC = 'hiop::hiopVector const&'; V1 = 'hiop::hiopVector&'
# ------------------------------------------------------------------------- objects with an open set of overriders
def vtable(env, cls):
    g_ = env.vtname(cls)
    for m in env.ex.mods:
        if g_ in m.gtxt:
            v = m.vtable(g_)
            if v: return [(m, x) for x in v]
    return []
def virt(env, nm, prefix, own, refs=()):
    """vtable pointer: slots the class itself defines go there, the others to '<prefix>:<method>'"""
    ex = env.ex
    def cell(off, ty):
        k = (off - 16) // 8
        for cls in ([own] if own else []) + list(refs):
            t = vtable(env, cls)
            if k < len(t) and t[k][1] and t[k][1] != '__cxa_pure_virtual':
                if cls == own: return S.Fn(t[k][1])
                d = ex.demangle(t[k][1])
                d = d.split('(')[0].rsplit('::', 1)[-1] + d[d.index('('):] if '(' in d else d
                return S.Fn('%s:%s' % (prefix, d))
        return S.Fn('%s:slot%d' % (prefix, k))
    b = S.Block('@vt:' + nm, 'global'); b.mkcell = cell
    return mkptr(b, 16)
def operator(env, nm, rows, cols):
    """a matrix of unknown kind: rows, cols give the spaces"""
    b = S.Block(nm, 'obj'); b.members = {}; b.over = {}; b.env = env; b.cls = None; b.opname = nm; b.rows = rows; b.cols = cols
    b.lazy_cells[0] = (8, virt(env, nm, 'op', None, ('hiop::hiopMatrixDenseRowMajor',)))
    return mkptr(b)
SP = {'x': lambda env: space(env)['x'][0], 'c': lambda env: space(env)['c'][0], 'd': lambda env: space(env)['d'][0]}
def oneb(p):
    p = toptr(p).nonnull()
    if not p.single or p.base is None: raise S.Unsupported('operator aliasing')
    return p.base
def vecof(cx, p): return CT.VIEW['hiop::hiopVectorPar'](cx if hasattr(cx, 'wrap') else CT.Ctx(cx.ex, cx.st, 'call', cx.mod), toptr(p), 'hiop::hiopVectorPar')
def apply(op, n, X): return lambda j: TM.App(op, [j], [(n, X)], 'R')
def opmul(op, n, be, Y, al, X): return lambda j: add(mul(be, Y(j)), mul(al, apply(op, n, X)(j)))
TV = 'double, hiop::hiopVector&, double, hiop::hiopVector const&'
def times(cx, tr):
    b = oneb(cx.args[0]); be, al = cx.args[1], cx.args[3]; c = CT.Ctx(cx.ex, cx.st, 'call', cx.mod); y, x = vecof(c, cx.args[2]), vecof(c, cx.args[4])
    rows, cols = (b.rows, b.cols) if not tr else (b.cols, b.rows); env = cx.ex.env
    cx.ex.oblige('pre', cx.st, and_(eq(y.n, SP[rows](env)), eq(x.n, SP[cols](env))), 'dimensions of the product with ' + b.opname)
    y.a = opmul(b.opname + ('^T' if tr else ''), SP[cols](env), be, y.a, al, x.a)
    return S.UNDEF
@intrin.ext(r'^op:timesVec\(double, hiop::hiopVector&, double, hiop::hiopVector const&\) const$')
def _(cx): return times(cx, False)
@intrin.ext(r'^op:transTimesVec\(double, hiop::hiopVector&, double, hiop::hiopVector const&\) const$')
def _(cx): return times(cx, True)
@intrin.ext(r'^op:(m|n)\(\) const$')
def _(cx):
    b = oneb(cx.args[0]); k = b.rows if ':m(' in cx.name else b.cols; env = cx.ex.env
    return space(env)['x'][2] if k == 'x' else SP[k](env)
@intrin.ext(r'^kkt:HessianTimesVec_noLogBarrierTerm\(')
def _(cx):
    c = CT.Ctx(cx.ex, cx.st, 'call', cx.mod); n = SP['x'](cx.ex.env); y, x = vecof(c, cx.args[2]), vecof(c, cx.args[4])
    y.a = opmul('H', n, cx.args[1], y.a, cx.args[3], x.a); return S.UNDEF
# ------------------------------------------------------------------------- shapes
VECS = dict(Dx_='x', rx_tilde_='x', Dd_='d', Dd_inv_='d', ryd_tilde_='d', rd_tilde_='d', ryc_tilde_='c', Hx_='x', Hd_='d')
PT = dict(wx='x', wd='d', cc='c', cd='d')
REFS = (K_ + 'LowRank', K_ + 'DenseXDYcYd')
def shape_kkt(env, b, **kw):
    m = b.members; nm = b.name
    b.over['nlp_'] = the_nlp(env)
    b.over['iter_'] = mkptr(env.obj('hiop::hiopIterate', 'curr'))
    b.over['grad_f_'] = vx(env, nm + '.grad')
    b.over['Jac_c_'] = operator(env, 'Jc', 'c', 'x'); b.over['Jac_d_'] = operator(env, 'Jd', 'd', 'x'); b.over['Hess_'] = operator(env, 'H', 'x', 'x')
    b.over['perturb_calc_'] = mkptr(env.obj('hiop::hiopPDPerturbation', 'pert'))
    for k, kind in PT.items(): b.over['delta_%s_' % k] = KIND[kind](env, nm + '.old_' + k)
    for k, kind in VECS.items():
        if k in m: b.over[k] = (scratch if k == 'rx_tilde_' else lambda e, p: p)(env, KIND[kind](env, nm + '.' + k))
    for k, kind in (('x_wrk_', 'x'), ('d_wrk_', 'd')):
        if k in m: b.over[k] = S.ptr_ite(env.sym(nm + '.nowrk', 'B') if not (b.cls or '').endswith('NormalEquation') else FALSE, S.NULL, scratch(env, KIND[kind](env, nm + '.' + k)))
    b.lazy_cells[0] = (8, virt(env, nm, 'kkt', b.cls, () if (b.cls or '').endswith(('Full', 'NormalEquation')) else REFS if 'XDYcYd' not in (b.cls or '') else REFS[::-1]))
for k in ('', 'Compressed', 'CompressedXYcYd', 'CompressedXDYcYd', 'LowRank', 'Full', 'NormalEquation', 'CurvCheck'):
    SHAPE[K_ + k] = shape_kkt
    CT.IGNORE[K_ + k] = ['delta_wx_', 'delta_wd_', 'delta_cc_', 'delta_cd_', 'x_wrk_', 'd_wrk_']
def deltas(s):
    p = s.perturb_calc_
    return {k: g(p, 'delta_%s_curr_' % k) for k in PT}
def nrm2(n, f): return sqrt(AllSum(Sum(n, lambda i: mul(f(i), f(i)))))
def nrmi(n, f): return AllMax(RES.fnorm(n, f))
# ------------------------------------------------------------------------- the full system, block by block
def full_rows(s, d, at=None):
    """left-hand sides of the block equations of the full linearized optimality conditions, applied to the direction d"""
    it = at or s.iter_; N = s.nlp_; D = deltas(s)
    n, me, mi = d.x.n, d.yc.n, d.yd.n
    a = {k: g(d, k).a for k in ITV}; W = {k: v.a for k, v in D.items()}
    P_ = {k: g(N, k).a for k in RB_}; C = {k: g(it, k).a for k in ITV}
    Hx, JcT, JdT = apply('H', n, a['x']), apply('Jc^T', me, a['yc']), apply('Jd^T', mi, a['yd'])
    Jc, Jd = apply('Jc', n, a['x']), apply('Jd', n, a['x'])
    r = {}
    r['rx'] = lambda j: sub(add(add(add(Hx(j), mul(W['wx'](j), a['x'](j))), add(JcT(j), JdT(j))), a['zu'](j)), a['zl'](j))
    r['rd'] = lambda j: sub(add(mul(W['wd'](j), a['d'](j)), a['vu'](j)), add(a['yd'](j), a['vl'](j)))
    r['ryc'] = lambda j: sub(Jc(j), mul(W['cc'](j), a['yc'](j)))
    r['ryd'] = lambda j: sub(sub(Jd(j), a['d'](j)), mul(W['cd'](j), a['yd'](j)))
    for sl, z, x, b, p, sg in BL:
        r[RES.RB[p][0]] = (lambda sl, x, sg, p: lambda j: ite(zero(P_[p](j)), R(0), add(a[sl](j), scale(sg if False else 1, (neg if sg_minus(p) else (lambda t: t))(a[x](j))))))(sl, x, sg, p)
        r[RES.RB[p][1]] = (lambda sl, z: lambda j: add(mul(C[sl](j), a[z](j)), mul(C[z](j), a[sl](j))))(sl, z)
    return r
RB_ = ('ixl_', 'ixu_', 'idl_', 'idu_')
def sg_minus(p): return p in ('ixl_', 'idl_')
ORDER = ('rx', 'rd', 'ryc', 'ryd', 'rxl', 'rxu', 'rdl', 'rdu', 'rszl', 'rszu', 'rsvl', 'rsvu')
def kobj(cls): return lambda env, st: mkptr(env.obj(cls, 'self'))
def arg(name): return lambda env, nm, args: mkptr(env.obj(name, nm))
DIRA = {0: arg('hiop::hiopResidual'), 1: arg('hiop::hiopIterate')}
@contract(K_ + '::errorKKT(%s, %s)' % (R_, IC))
def _(c, s, r, d):
    """norm of the residual of the full system"""
    N = s.nlp_; boolpat(c, N.ixl_, N.ixu_, N.idl_, N.idu_)
    L = full_rows(s, d); e = R(-1)
    for k in ORDER:
        v = g(r, k); A = v.a; B = L[k]
        if k in ('rxl', 'rxu', 'rdl', 'rdu'):
            p = g(N, {'rxl': 'ixl_', 'rxu': 'ixu_', 'rdl': 'idl_', 'rdu': 'idu_'}[k]).a
            f = (lambda A, B, p: lambda j: ite(zero(p(j)), R(0), sub(A(j), B(j))))(A, B, p)
        else: f = (lambda A, B: lambda j: sub(A(j), B(j)))(A, B)
        e = maxr(e, nrmi(v.n, f) if k == 'ryd' else nrm2(v.n, f))
    return e

# ------------------------------------------------------------------------- recovery of the eliminated directions
def sound(c, s):
    """patterns and their counts, slacks inside their bounds"""
    N = s.nlp_; counts(c, N)
    for sl, z, x, b, p, sg in BL: positive(c, g(s.iter_, sl), g(N, p))
def recover(c, s, r, d, out=None):
    """directions of the slacks and bound multipliers from those of x and d"""
    N = s.nlp_; it = s.iter_
    for sl, z, x, b, p, sg in BL:
        X, P_, RB, RS, Z, SL = g(d, x).a, g(N, p).a, g(r, RES.RB[p][0]).a, g(r, RES.RB[p][1]).a, g(it, z).a, g(it, sl).a
        lo = sg_minus(p)
        ds = (lambda X, P_, RB, lo: lambda j: ite(zero(P_(j)), R(0), (add if lo else sub)(RB(j), X(j))))(X, P_, RB, lo)
        dz = (lambda ds, P_, RS, Z, SL: lambda j: ite(zero(P_(j)), R(0), div(sub(RS(j), mul(Z(j), ds(j))), SL(j))))(ds, P_, RS, Z, SL)
        g(d, sl).a = ds; g(d, z).a = dz
def bound_rows(s, c2, r0, it0, sv, dv):
    """the block equations of the slacks and of the complementarity, for every entry"""
    for sl, z, x, b, p, sg in BL: yield sl, z, x, p
def every(n, f): return Forall(n, f)
def row_ensures(c, s, rv, only=RES.RB):
    """block equations that the recovered directions satisfy"""
    if c.mode != 'verify': return
    N = s.nlp_; it = s.iter_
    snap = {p: tuple(g(rv, k).a for k in RES.RB[p]) for p in RES.RB}
    pats = {p: g(N, p).a for p in RES.RB}; C = {k: g(it, k).a for k in ITV}
    return snap, pats, C
def dir_lemmas(c, s, r, d):
    """checked on the final state of the code: every eliminated block row holds for every entry"""
    if c.mode != 'verify': return
    snap, pats, C = row_ensures(c, s, r)
    dp = d.ptr
    for sl, z, x, b, p, sg in BL:
        def lem(c2, res, sl=sl, z=z, x=x, p=p):
            D = c2.wrap(dp, 'hiop::hiopIterate'); ds, dz, X = g(D, sl).a, g(D, z).a, g(D, x).a; n = g(D, x).n
            rb, rs = snap[p]; P_ = pats[p]
            e1 = every(n, lambda j: implies(not_(zero(P_(j))), eq(sub(ds(j), X(j)) if sg_minus(p) else add(ds(j), X(j)), rb(j))))
            e2 = every(n, lambda j: implies(not_(zero(P_(j))), eq(add(mul(C[sl](j), dz(j)), mul(C[z](j), ds(j))), rs(j))))
            e3 = every(n, lambda j: implies(zero(P_(j)), and_(zero(ds(j)), zero(dz(j)))))
            return implies(tobool(res), and_(e1, e2, e3))
        c.ensures.append(('rows of %s and %s hold' % (sl, z), lem))
def tobool(x): return x if x.sort == 'B' else not_(eq(x, I(0)))
@contract(K_ + '::compute_directions_for_full_space(%s, %s)' % (R_, I_), cost=50, split=2)
def _(c, s, r, d):
    sound(c, s); recover(c, s, r, d); dir_lemmas(c, s, r, d); return TRUE
# ------------------------------------------------------------------------- compressed systems
def bary(s, up, lo):
    """barrier diagonal: Z/S over the bounds of x (or d)"""
def diag(N, it, kind):
    t = [(g(it, z).a, g(it, sl).a, g(N, p).a) for sl, z, x, b, p, sg in BL if x == kind]
    def f(j):
        v = R(0)
        for Z, SL, P_ in t: v = add(v, ite(one(P_(j)), div(Z(j), SL(j)), R(0)))
        return v
    return f
def tilde(s, r, kind):
    """right-hand side of the row of x (d) after elimination of the slacks and bound multipliers"""
    N, it = s.nlp_, s.iter_
    A = g(r, 'rx' if kind == 'x' else 'rd').a
    t = [(g(it, z).a, g(it, sl).a, g(N, p).a, g(r, RES.RB[p][0]).a, g(r, RES.RB[p][1]).a, sg_minus(p)) for sl, z, x, b, p, sg in BL if x == kind]
    def f(j):
        v = A(j)
        for Z, SL, P_, RB, RS, lo in t:
            q = div(sub(RS(j), mul(Z(j), RB(j))), SL(j)); v = (add if lo else sub)(v, ite(one(P_(j)), q, R(0)))
        return v
    return f
def hav(c, *vs):
    for v in vs: c.havoc(v)
def reach(c, s, r, d, ok):
    """recovery when the compressed solve succeeded; otherwise the direction is not meaningful"""
    c.when(ok, lambda: recover(c, s, r, d), lambda: hav(c, *[g(d, k) for k in ITV]))
def reduced_lemmas(c, s, r, d, dd_row):
    """elimination is exact: the compressed row of x plus the recovered multipliers is the full row; likewise for d"""
    if c.mode != 'verify': return
    N, it = s.nlp_, s.iter_; dp = d.ptr; D = {'x': diag(N, it, 'x'), 'd': diag(N, it, 'd')}
    T_ = {'x': tilde(s, r, 'x'), 'd': tilde(s, r, 'd')}; RR = {'x': r.rx.a, 'd': r.rd.a}
    def row(kind):
        zl, zu = ('zl', 'zu') if kind == 'x' else ('vl', 'vu')
        def lem(c2, res):
            V = c2.wrap(dp, 'hiop::hiopIterate'); X, A, B = g(V, kind).a, g(V, zl).a, g(V, zu).a; n = g(V, kind).n
            return implies(tobool(res), every(n, lambda j: eq(sub(T_[kind](j), mul(D[kind](j), X(j))), sub(add(RR[kind](j), A(j)), B(j)))))
        return lem
    c.ensures.append(('row of x: compressed right-hand side minus Dx*dx is rx + dzl - dzu', row('x')))
    if dd_row: c.ensures.append(('row of d: compressed right-hand side minus Dd*dd is rd + dvl - dvu', row('d')))
def solver(slot, ins, outs, clobber):
    """solution of a compressed system: an arbitrary function of its right-hand side; clobber: right-hand sides used as work space"""
    def f(cx):
        c = CT.Ctx(cx.ex, cx.st, 'call', cx.mod); k = len(ins); v = [vecof(c, p) for p in cx.args[1:1 + k + len(outs)]]
        ar = [(x.n, x.a) for x in v[:k]]
        for nm, x in zip(outs, v[k:]): x.a = (lambda nm: lambda j: TM.App('sol.' + nm, [j], ar, 'R'))(nm)
        for i in clobber: v[i].a = (lambda i: lambda j: TM.App('sol.work%d' % i, [j], ar, 'R'))(i)
        return TM.App('sol.ok', [], ar, 'B')
    return intrin.ext(slot)(f) if slot else f
def solve_spec(c, ins, outs):
    ar = [(v.n, f) for v, f in ins]
    for nm, x in outs: x.a = (lambda nm: lambda j: TM.App('sol.' + nm, [j], ar, 'R'))(nm)
    return TM.App('sol.ok', [], ar, 'B')
S6, S8 = ', '.join([V1] * 6), ', '.join([V1] * 8)
solver(r'^kkt:solveCompressed\(%s\)$' % re.escape(S6), 'abc', ('x', 'yc', 'yd'), (0,))
solver(r'^kkt:solveCompressed\(%s\)$' % re.escape(S8), 'abcd', ('x', 'd', 'yc', 'yd'), (0,))
@contract(K_ + 'CompressedXYcYd::computeDirections(%s, %s)' % (R_, I_), cost=50, split=4)
def _(c, s, r, d):
    sound(c, s); n, mi = d.x.n, d.d.n
    N, it = s.nlp_, s.iter_; W = deltas(s)['wd'].a; DI = s.Dd_inv_.a; Dd = diag(N, it, 'd')
    c.require(Forall(mi, lambda j: eq(mul(DI(j), add(W(j), Dd(j))), R(1))), 'Dd_inv is the inverse of Dd + delta_wd')
    tx, td = tilde(s, r, 'x'), tilde(s, r, 'd'); RYD = r.ryd.a
    ty = lambda j: add(RYD(j), mul(DI(j), td(j)))
    reduced_lemmas(c, s, r, d, False)
    s.ryd_tilde_.a = ty
    ok = solve_spec(c, [(s.rx_tilde_, tx), (r.ryc, r.ryc.a), (s.ryd_tilde_, ty)], [('x', d.x), ('yc', d.yc), ('yd', d.yd)])
    YD = d.yd.a
    d.d.a = lambda j: mul(DI(j), add(td(j), YD(j)))
    reach(c, s, r, d, ok); dir_lemmas(c, s, r, d)
    if c.mode == 'verify':
        dp, RD = d.ptr, r.rd.a
        def rowd(c2, res):
            V = c2.wrap(dp, 'hiop::hiopIterate'); dd, yd, vl, vu = V.d.a, V.yd.a, V.vl.a, V.vu.a
            return implies(tobool(res), every(mi, lambda j: eq(add(sub(sub(mul(W(j), dd(j)), yd(j)), vl(j)), vu(j)), RD(j))))
        def rowyd(c2, res):
            V = c2.wrap(dp, 'hiop::hiopIterate'); dd, yd = V.d.a, V.yd.a
            return implies(tobool(res), every(mi, lambda j: eq(add(ty(j), mul(DI(j), yd(j))), add(RYD(j), dd(j)))))
        c.ensures.append(('row of d: delta*dd - dyd - dvl + dvu = rd', rowd)); c.ensures.append(('row of yd: compressed row is the full row', rowyd))
    return ok
@contract(K_ + 'CompressedXDYcYd::computeDirections(%s, %s)' % (R_, I_), cost=50, split=4)
def _(c, s, r, d):
    sound(c, s)
    tx, td = tilde(s, r, 'x'), tilde(s, r, 'd')
    reduced_lemmas(c, s, r, d, True)
    s.rd_tilde_.a = td
    ok = solve_spec(c, [(s.rx_tilde_, tx), (s.rd_tilde_, td), (r.ryc, r.ryc.a), (r.ryd, r.ryd.a)], [('x', d.x), ('d', d.d), ('yc', d.yc), ('yd', d.yd)])
    reach(c, s, r, d, ok); dir_lemmas(c, s, r, d)
    return ok
# residuals of the compressed systems
def cmp_err(c, s, rows):
    e = R(-1)
    for n, f in rows: e = maxr(e, nrm2(n, f))
    return e
@contract(K_ + 'CompressedXYcYd::errorCompressedLinsys(%s)' % ', '.join([VC] * 6), args={0: kvec('x'), 1: kvec('c'), 2: kvec('d'), 3: kvec('x'), 4: kvec('c'), 5: kvec('d')})
def _(c, s, rx, rc, rd, x, yc, yd):
    W = {k: v.a for k, v in deltas(s).items()}; n, me, mi = x.n, yc.n, yd.n; X, YC, YD, RX, RC, RD, Dx, DI = x.a, yc.a, yd.a, rx.a, rc.a, rd.a, s.Dx_.a, s.Dd_inv_.a
    Hx, JcT, JdT, Jc, Jd = apply('H', n, X), apply('Jc^T', me, YC), apply('Jd^T', mi, YD), apply('Jc', n, X), apply('Jd', n, X)
    return cmp_err(c, s, [(n, lambda j: sub(RX(j), add(add(Hx(j), mul(add(Dx(j), W['wx'](j)), X(j))), add(JcT(j), JdT(j))))),
                          (me, lambda j: sub(RC(j), sub(Jc(j), mul(W['cc'](j), YC(j))))),
                          (mi, lambda j: sub(RD(j), sub(Jd(j), mul(add(DI(j), W['cd'](j)), YD(j)))))])
@contract(K_ + 'CompressedXDYcYd::errorCompressedLinsys(%s)' % ', '.join([VC] * 8), args={0: kvec('x'), 1: kvec('d'), 2: kvec('c'), 3: kvec('d'), 4: kvec('x'), 5: kvec('d'), 6: kvec('c'), 7: kvec('d')})
def _(c, s, rx, rd, rc, ry, x, d, yc, yd):
    W = {k: v.a for k, v in deltas(s).items()}; n, me, mi = x.n, yc.n, yd.n; X, D, YC, YD, RX, RD, RC, RY, Dx, Dd = x.a, d.a, yc.a, yd.a, rx.a, rd.a, rc.a, ry.a, s.Dx_.a, s.Dd_.a
    Hx, JcT, JdT, Jc, Jd = apply('H', n, X), apply('Jc^T', me, YC), apply('Jd^T', mi, YD), apply('Jc', n, X), apply('Jd', n, X)
    return cmp_err(c, s, [(n, lambda j: sub(RX(j), add(add(Hx(j), mul(add(Dx(j), W['wx'](j)), X(j))), add(JcT(j), JdT(j))))),
                          (mi, lambda j: sub(RD(j), sub(mul(add(Dd(j), W['wd'](j)), D(j)), YD(j)))),
                          (me, lambda j: sub(RC(j), sub(Jc(j), mul(W['cc'](j), YC(j))))),
                          (mi, lambda j: sub(RY(j), sub(sub(Jd(j), D(j)), mul(W['cd'](j), YD(j)))))])
# ------------------------------------------------------------------------- updates for a new point
def factorize_(cx):
    c = CT.Ctx(cx.ex, cx.st, 'call', cx.mod); b = oneb(cx.args[0]); s = c.wrap(mkptr(b), b.cls)
    ar = [(s.Dx_.n, s.Dx_.a), (s.Dd_.n, s.Dd_.a)] if 'Dx_' in b.members else []
    return TM.App('factorize', [], ar, 'B')
def newit(env, nm, args): return mkptr(env.obj('hiop::hiopIterate', 'it'))
UPD = {0: newit, 1: kvec('x'), 2: lambda env, nm, a: operator(env, 'Jc', 'c', 'x'), 3: lambda env, nm, a: operator(env, 'Jd', 'd', 'x'), 4: lambda env, nm, a: operator(env, 'H', 'x', 'x')}
def point(c, s, it, g_, jc, jd, h):
    s.iter_ = it; s.grad_f_ = g_; s.Jac_c_ = jc; s.Jac_d_ = jd; s.Hess_ = h
def diagonals(c, s, it):
    """barrier diagonals of x and d at the new point; every constraint on d has a bound with a positive multiplier"""
    N = s.nlp_
    for sl, z, x, b, p, sg in BL:
        boolpat(c, g(N, p)); positive(c, g(it, sl), g(N, p)); matches(c, g(it, z), g(N, p))
    class V: pass
    v = V(); v.nlp_ = N; v.iter_ = it
    dx, dd = (diag(N, it, k) for k in 'xd')
    c.require(Forall(s.Dd_.n, lambda j: gt(dd(j), R(0))), 'the diagonal of d is positive')
    return dx, dd
def upd(cls, extra=None):
    @contract(K_ + cls + '::update(%s, hiop::hiopVector const*, hiop::hiopMatrix const*, hiop::hiopMatrix const*, hiop::hiopMatrix*)' % IC, args=UPD, calls={K_ + 'CurvCheck::factorize()': factorize_})
    def _(c, s, it, gf, jc, jd, h):
        point(c, s, it, gf, jc, jd, h)
        if cls == 'Full': return TM.App('factorize', [], [], 'B')
        dx, dd = diagonals(c, s, it)
        s.Dx_.a = dx; s.Dd_.a = dd
        return TM.App('factorize', [], [(s.Dx_.n, dx), (s.Dd_.n, dd)], 'B')
for k in ('CompressedXYcYd', 'CompressedXDYcYd', 'NormalEquation', 'Full'): upd(k)
# ------------------------------------------------------------------------- full-space system
SF = ', '.join([V1] * 24)
FULLORD = ('x', 'yc', 'yd', 'd', 'vl', 'vu', 'zl', 'zu', 'sdl', 'sdu', 'sxl', 'sxu')
FULLRES = ('rx', 'ryc', 'ryd', 'rd', 'rdl', 'rdu', 'rxl', 'rxu', 'rsvl', 'rsvu', 'rszl', 'rszu')
def solve_full(cx):
    """the rows of the system in the order of its right-hand sides, the unknowns in the order of its solution"""
    c = CT.Ctx(cx.ex, cx.st, 'call', cx.mod); v = [vecof(c, p) for p in cx.args[1:25]]
    ar = [(x.n, x.a) for x in v[:12]]
    for nm, x in zip(FULLORD, v[12:]): x.a = (lambda nm: lambda j: TM.App('sol.' + nm, [j], ar, 'R'))(nm)
    return TM.App('sol.ok', [], ar, 'B')
@contract(K_ + 'Full::computeDirections(%s, %s)' % (R_, I_))
def _(c, s, r, d):
    return solve_spec(c, [(g(r, k), g(r, k).a) for k in FULLRES], [(k, g(d, k)) for k in FULLORD])
# ------------------------------------------------------------------------- normal equations
S4 = ', '.join([V1] * 4)
@intrin.ext(r'^kkt:slot\d+$')
def _(cx):
    """the one method a concrete class adds: the solve with the full or the normal-equation matrix"""
    if len(cx.args) == 25: return solve_full(cx)
    if len(cx.args) == 5: return solve4(cx)
    raise S.Unsupported('unknown method of the concrete class')
solve4 = solver(None, 'ab', ('yc', 'yd'), ())
@contract(K_ + 'NormalEquation::computeDirections(%s, %s)' % (R_, I_), cost=50, split=4)
def _(c, s, r, d):
    sound(c, s); n, me, mi = d.x.n, d.yc.n, d.d.n
    HX, HD = s.Hx_.a, s.Hd_.a
    c.require(Forall(n, lambda j: not_(zero(HX(j)))), 'the diagonal of x is not singular'); c.require(Forall(mi, lambda j: not_(zero(HD(j)))), 'the diagonal of d is not singular')
    tx, td = tilde(s, r, 'x'), tilde(s, r, 'd')
    u = lambda j: div(tx(j), HX(j))
    RC, RD = r.ryc.a, r.ryd.a
    tc = lambda j: sub(apply('Jc', n, u)(j), RC(j))
    ty = lambda j: sub(sub(apply('Jd', n, u)(j), RD(j)), div(td(j), HD(j)))
    reduced_lemmas(c, s, r, d, True)
    s.rd_tilde_.a = td; s.ryc_tilde_.a = tc; s.ryd_tilde_.a = ty
    ok = solve_spec(c, [(s.ryc_tilde_, tc), (s.ryd_tilde_, ty)], [('yc', d.yc), ('yd', d.yd)])
    YC, YD = d.yc.a, d.yd.a
    d.x.a = lambda j: div(sub(sub(tx(j), apply('Jc^T', me, YC)(j)), apply('Jd^T', mi, YD)(j)), HX(j))
    d.d.a = lambda j: div(add(td(j), YD(j)), HD(j))
    reach(c, s, r, d, ok); dir_lemmas(c, s, r, d)
    return ok
ALL = [n for n in REG if n.startswith(K_)]

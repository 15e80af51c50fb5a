"""Contracts of the problem transformations: fixed-variable removal and relaxation, gradient scaling, and their composition."""
from .base import *
from ..sym import PtrCol, Unsupported
from . import dense as DEN, nlp as NLP
from .dense import dim
from .nlp import num, inum, isopt
SRC = NLP.SRC
RM = 'hiop::hiopFixedVarsRemover'; RX = 'hiop::hiopFixedVarsRelaxer'; SC = 'hiop::hiopNLPObjGradScaling'; BR = 'hiop::hiopBoundsRelaxer'; TR = 'hiop::hiopNlpTransformations'; TB = 'hiop::hiopNlpTransformation'
VR, MR_ = 'hiop::hiopVector&', 'hiop::hiopMatrix&'
CT.IMPL[TB] = BR
REMOVE, RELAX, SCALE, COMP = [], [], [], []
def K(lst, name, **kw):
    def d(f): lst.append(name); return contract(name, **kw)(f)
    return d
# ------------------------------------------------------------------ fixed variables
def uspace(env):
    """dimensions of the user's space of variables: those of the solver unless fixed variables are removed"""
    u = getattr(env, 'usp', None)
    if u is None:
        n, il, ng = [env.sym(k, 'I') for k in ('nfs', 'fs.il', 'fs.ng')]
        env.fact(ge(il, I(0))); env.fact(le(add(il, n), ng)); env.fact(le(space(env)['x'][0], n)); env.fact(le(space(env)['x'][2], ng))
        u = env.usp = (n, il, ng)
    return u
def vu(env, nm): return vec(env, nm, *uspace(env))
def stdvec(env, b, member, p, n, sz):
    """std::vector: begin, end, end of storage"""
    o = b.members[member][0]
    b.lazy_cells[o] = (8, p); b.lazy_cells[o + 8] = (8, pshift(p, scale(sz, n))); b.lazy_cells[o + 16] = (8, pshift(p, scale(sz, n)))
def distjac(env, nm, m, u):
    n, il, ng = u; return mkptr(env.obj(DEN.DC, nm, m=m, n=n, local=False, ng=ng, jl=il))
def shape_rm(env, b, **kw):
    n, il, ng = space(env)['x']; me, mi = space(env)['c'][0], space(env)['d'][0]; nf = uspace(env)[0]
    for k in ('xl_fs', 'xu_fs', 'x_fs', 'grad_fs'): b.over[k] = vu(env, b.name + '.' + k)
    for k in ('x_rs_ref_', 'grad_rs_ref'): b.over[k] = vx(env, b.name + '.' + k)
    for k, m in (('c', me), ('d', mi)):
        b.over['Jac%s_fs' % k] = distjac(env, b.name + '.Jac%s_fs' % k, m, uspace(env)); b.over['Jac%s_rs_ref' % k] = distjac(env, b.name + '.Jac%s_rs' % k, m, space(env)['x'])
    env.set(b, 'n_fixed_vars_local', sub(nf, n)); env.set(b, 'n_fs', uspace(env)[2]); env.set(b, 'n_rs', ng)
    stdvec(env, b, 'fs2rs_idx_map', mkptr(env.darr(b.name + '.map', nf, 'I', 4)), nf, 4)
SHAPE[RM] = shape_rm
def idx(c, s): return Arr(c, toptr(c.ex.load(c.st, pshift(s.ptr, I(s._mem('fs2rs_idx_map')[0])), ('ptr',), c.mod)), 'I', 4)
def nfs(s): return s.xl_fs.n
def isfixed(s):
    L, U, t = s.xl_fs.a, s.xu_fs.a, s.fixedVarTol
    return lambda i: le(absr(sub(L(i), U(i))), mul(t, maxr(R(1), absr(U(i)))))
def nrs(s): return sub(nfs(s), s.n_fixed_vars_local)
def setup_inv(c, s):
    """the map built by setupDecisionVectorPart: fixed entries are marked, the others are numbered in order"""
    M = idx(c, s).snap(); n = nrs(s)
    c.require(Forall(nfs(s), lambda i: and_(le(I(-1), M(i)), lt(M(i), n))), 'map into the reduced space')
    return M
@K(REMOVE, RM + '::setupDecisionVectorPart()')
def _(c, s):
    F = isfixed(s); n = nfs(s)
    c.require(eq(Count(n, lambda i: not_(F(i))), nrs(s)), 'number of fixed variables')
    idx(c, s).write(n, lambda i: ite(F(i), I(-1), Count(i, lambda q: not_(F(q)))))
    return TRUE
def kfs(env, nm, args): return vu(env, nm)
def krs(env, nm, args): return vx(env, nm)
def expand(c, s, rs, fs):
    M = setup_inv(c, s); L, X = s.xl_fs.a, rs.a
    c.require(and_(eq(rs.n, nrs(s)), eq(fs.n, nfs(s))), 'sizes')
    fs.a = lambda i: ite(lt(M(i), I(0)), L(i), X(M(i)))
def reduce_(c, s, fs, rs):
    M = setup_inv(c, s); X, Y = fs.a, rs.a; n = nfs(s)
    c.require(and_(eq(rs.n, nrs(s)), eq(fs.n, n)), 'sizes')
    def f(k):
        l = Last(n, lambda i: eq(M(i), k)); return ite(ge(l, I(0)), X(l), Y(k))
    rs.a = f
CV = 'hiop::hiopVector const*'
@K(REMOVE, RM + '::apply_inv_to_vector(%s, hiop::hiopVector*)' % CV, args={0: krs, 1: kfs})
def _(c, s, rs, fs): expand(c, s, rs, fs)
@K(REMOVE, RM + '::apply_to_vector(%s, hiop::hiopVector*)' % CV, args={0: kfs, 1: krs})
def _(c, s, fs, rs): reduce_(c, s, fs, rs)
@K(REMOVE, RM + '::copyFsToRs(hiop::hiopVector const&, %s)' % VR, args={0: kfs, 1: krs})
def _(c, s, fs, rs): reduce_(c, s, fs, rs)
NT = 'hiop::hiopInterfaceBase::NonlinearityType'
def ints(n): return lambda env, nm, args: mkptr(env.darr(nm, n(env), 'I', 4))
iarr = lambda c, p: Arr(c, p, 'I', 4)
@K(REMOVE, RM + '::copyFsToRs(%s const*, %s*)' % (NT, NT), args={0: ints(lambda e: uspace(e)[0]), 1: ints(lambda e: space(e)['x'][0])}, wrap={0: iarr, 1: iarr})
def _(c, s, fs, rs):
    M = setup_inv(c, s); X, Y = fs.snap(), rs.snap(); n = nfs(s)
    def f(k):
        l = Last(n, lambda i: eq(M(i), k)); return ite(ge(l, I(0)), X(l), Y(k))
    rs.write(nrs(s), f)
@K(REMOVE, RM + '::apply_inv_to_x(%s, bool const&)' % VR, args={0: krs})
def _(c, s, x, new):
    s.x_rs_ref_ = x; f = s.x_fs
    c.when(new.v, lambda: expand(c, s, x, f))
    return f
@K(REMOVE, RM + '::apply_to_x(%s, %s)' % (VR, VR), args={0: kfs, 1: krs})
def _(c, s, x, o):
    c.require(lt(o.n_, s.xl_fs.n_), 'some variables are fixed'); reduce_(c, s, x, o)
@K(REMOVE, RM + '::apply_inv_to_grad_obj(%s)' % VR, args={0: krs})
def _(c, s, g): s.grad_rs_ref = g; f = s.grad_fs; expand(c, s, g, f); return f
def mine(m): return lambda env, nm, args: env.selfmember(args, m)
def self_member(env, args, m): return args[0].base.over[m]
@K(REMOVE, RM + '::apply_to_grad_obj(%s)' % VR, args={0: lambda env, nm, args: self_member(env, args, 'grad_fs')})
def _(c, s, g): c.require(g.same(s.grad_fs), 'the buffer handed out'); r = s.grad_rs_ref; reduce_(c, s, g, r); return r
# matrices: rows are transformed one by one
def mexpand(c, s, m, A, B):
    """A: reduced rows, B: full rows"""
    M = setup_inv(c, s); X = A.snap(); B.write(m, nfs(s), lambda i, j: ite(lt(M(j), I(0)), R(0), X(i, M(j))))
def mreduce(c, s, m, A, B):
    M = setup_inv(c, s); X, Y = A.snap(), B.snap(); n = nfs(s)
    def f(i, k):
        l = Last(n, lambda q: eq(M(q), k)); return ite(ge(l, I(0)), X(i, l), Y(i, k))
    B.write(m, nrs(s), f)
def mbuf(u): return lambda env, nm, args: mkptr(matblock(env, nm, dim(env, 'm'), (uspace(env) if u else space(env)['x'])[0]))
def mval(env, nm, args):
    b = S.Block(nm, 'obj'); b.members = {}; b.over = {}; b.env = env; b.cls = None; b.mkcell = lambda off, ty: dim(env, 'm'); return mkptr(b)
ident = lambda c, p: p
@K(REMOVE, RM + '::applyToMatrix(double const*, int const&, double*)', args={0: mbuf(0), 1: mval, 2: mbuf(1)}, wrap={0: ident, 2: ident})
def _(c, s, a, m, b): c.require(ge(m.v, I(0))); mexpand(c, s, m.v, Arr2(c, a, nrs(s)), Arr2(c, b, nfs(s)))
@K(REMOVE, RM + '::applyInvToMatrix(double const*, int const&, double*)', args={0: mbuf(1), 1: mval, 2: mbuf(0)}, wrap={0: ident, 2: ident})
def _(c, s, a, m, b): c.require(ge(m.v, I(0))); mreduce(c, s, m.v, Arr2(c, a, nfs(s)), Arr2(c, b, nrs(s)))
def kjac(k, u): return lambda env, nm, args: distjac(env, nm, space(env)[k][0], uspace(env) if u else space(env)['x'])
for k, w in (('c', 'eq'), ('d', 'ineq')):
    @K(REMOVE, RM + '::apply_inv_to_jacob_%s(%s, int const&)' % (w, MR_), args={0: kjac(k, 0)})
    def _(c, s, J, m, k=k):
        setattr(s, 'Jac%s_rs_ref' % k, J); F = getattr(s, 'Jac%s_fs' % k)
        c.require(and_(eq(F.m, m.v), eq(J.m, m.v), eq(J.n, nrs(s)), eq(F.n, nfs(s))), 'sizes'); mexpand(c, s, m.v, J.arr, F.arr); return F
    @K(REMOVE, RM + '::apply_to_jacob_%s(%s, int const&)' % (w, MR_), args={0: lambda env, nm, args, k=k: self_member(env, args, 'Jac%s_fs' % k)})
    def _(c, s, J, m, k=k):
        F = getattr(s, 'Jac%s_fs' % k); r = getattr(s, 'Jac%s_rs_ref' % k)
        c.require(and_(eq(F.m, m.v), eq(J.m, m.v), eq(r.m, m.v), eq(J.n, nfs(s)), eq(r.n, nrs(s))), 'sizes'); mreduce(c, s, m.v, J.arr, r.arr); return r
for n_, f_ in (('n_post', lambda s: s.n_rs), ('n_pre', lambda s: s.n_fs), ('n_post_local', nrs), ('n_pre_local', nfs)):
    @K(REMOVE, RM + '::%s()' % n_)
    def _(c, s, f_=f_): return f_(s)
@K(RELAX, RX + '::relax(double const&, double const&, %s, %s)' % (VR, VR), args={2: kvec('x'), 3: kvec('x')})
def _(c, s, tol, p, xl, xu):
    c.require(eq(xl.n, xu.n), 'sizes'); L, U, t, q = xl.a, xu.a, tol.v, p.v
    fx = lambda i: le(absr(sub(U(i), L(i))), mul(t, maxr(R(1), absr(U(i)))))
    d = lambda i: mul(q, maxr(R(1), absr(U(i))))
    xl.a = lambda i: ite(fx(i), sub(L(i), d(i)), L(i)); xu.a = lambda i: ite(fx(i), add(U(i), d(i)), U(i))
# ------------------------------------------------------------------ scaling
def ksc(k): return lambda env, nm, args: KIND[k](env, nm)
def kcd(env, nm, args): self_member(env, args, 'scale_factor_cd'); return vec(env, nm, env.sym('mcd', 'I'))
def local(c, *vs):
    for v in vs: c.require(eq(v.n, v.n_), 'not distributed')
D_ = 'double&'
@K(SCALE, SC + '::apply_inv_to_obj(double&)')
def _(c, s, f): return div(f.v, s.scale_factor_obj)
@K(SCALE, SC + '::apply_to_obj(double&)')
def _(c, s, f): return mul(s.scale_factor_obj, f.v)
def scaled(c, v, f): A = v.a; v.a = lambda j: f(A(j), j); return v
@K(SCALE, SC + '::apply_inv_to_grad_obj(%s)' % VR, args={0: ksc('x')})
def _(c, s, g): k = div(R(1), s.scale_factor_obj); return scaled(c, g, lambda x, j: mul(k, x))
@K(SCALE, SC + '::apply_to_grad_obj(%s)' % VR, args={0: ksc('x')})
def _(c, s, g): k = s.scale_factor_obj; return scaled(c, g, lambda x, j: mul(k, x))
CONS = (('cons_eq', 'scale_factor_c', ksc('c'), lambda s: s.n_eq), ('cons_ineq', 'scale_factor_d', ksc('d'), lambda s: s.n_ineq), ('cons', 'scale_factor_cd', kcd, lambda s: add(s.n_eq, s.n_ineq)))
def mcheck(c, s, m, mf): c.require(eq(mf(s), m.v), 'number of constraints')
for w, mem, kk, mf in CONS:
    for inv in (0, 1):
        @K(SCALE, SC + '::apply_%sto_%s(%s, int const&)' % ('inv_' if inv else '', w, VR), args={0: kk})
        def _(c, s, v, m, mem=mem, mf=mf, inv=inv):
            mcheck(c, s, m, mf); F = getattr(s, mem); c.require(and_(eq(F.n, v.n), eq(F.n_, v.n_)), 'sizes'); f = F.a
            return scaled(c, v, (lambda x, j: div(x, f(j))) if inv else (lambda x, j: mul(x, f(j))))
for w, k, mem, mf in (('eq', 'c', 'scale_factor_c', lambda s: s.n_eq), ('ineq', 'd', 'scale_factor_d', lambda s: s.n_ineq)):
    for inv in (0, 1):
        @K(SCALE, SC + '::apply_%sto_jacob_%s(%s, int const&)' % ('inv_' if inv else '', w, MR_), args={0: kjac(k, 0)})
        def _(c, s, J, m, mem=mem, mf=mf, inv=inv):
            mcheck(c, s, m, mf); F = getattr(s, mem); c.require(eq(J.m, F.n), 'sizes'); f, A = F.a, J.a
            J.a = lambda i, j: mul(div(R(1), f(i)) if inv else f(i), A(i, j))
            return J
# ------------------------------------------------------------------ composition
# the list holds, in this order and each optionally: the treatment of fixed variables, the bounds relaxer, the scaling
VARIANTS = [(f, b, s) for f in ('', RM, RX) for b in ('', BR) for s in ('', SC)]
def trans_state(env, b, off=0, nm='trans'):
    """hiopNlpTransformations stored at offset off of block b"""
    var = env.variant; el = []
    M = env.members(TR); ng = space(env)['x'][2]
    if var is None: raise Unsupported('transformations without a variant')
    if var[0] != RM: env.usp = space(env)['x']
    N = the_nlp(env)
    def nv(o, n_, l_):
        env.set(o, 'n_vars', n_); env.set(o, 'n_vars_local', l_)
    for cls in var:
        if not cls: continue
        if cls == BR: p = env.nlp.over['relax_bounds_']
        elif cls == SC: p = env.nlp.over['nlp_scaling_']
        else: p = mkptr(env.obj(cls, nm + '.fixed'))
        if cls != RM: nv(p.base, ng, space(env)['x'][0])
        el.append(p)
    blk = Block(nm + '.list', 'arr', None, stride=8, length=I(len(el))); blk.env = env; blk.listmem = True
    blk.ptrcol = lambda f: PtrCol(lambda i: pick(el, i))
    lo = off + M['list_trans_'][0]
    b.lazy_cells[lo] = (8, mkptr(blk)); b.lazy_cells[lo + 16] = (8, I(len(el)))
    n, il, g_ = uspace(env); env.fact(gt(g_, I(0)))
    for k, v in (('n_vars_usernlp', g_), ('n_vars_local_usernlp', n)): b.lazy_cells[off + M[k][0]] = (M[k][1], v)
    return el
def pick(el, i):
    i = I(i)
    if isc(i): return el[cv(i)] if 0 <= cv(i) < len(el) else NULL
    r = NULL
    for k, p in enumerate(el): r = ptr_ite(eq(i, I(k)), p, r)
    return r
SHAPE[TR] = lambda env, b, **kw: trans_state(env, b)
_shape1 = SHAPE[NLPC]
def shape_nlp3(env, b, **kw):
    _shape1(env, b, **kw)
    var = getattr(env, 'variant', None)
    if var is not None:
        b.over['nlp_scaling_'] = mkptr(env.obj(SC, 'scaling')) if var[2] else NULL
        if 'nlp_transformations_' in b.members and env.vmode == 'nlp': trans_state(env, b, b.members['nlp_transformations_'][0])
SHAPE[NLPC] = shape_nlp3
def elems(c, s):
    """the transformations in the list"""
    L = pshift(s.ptr, I(c.env.members(TR)['list_trans_'][0])); n = c.ex.load(c.st, pshift(L, I(16)), ('i', 64), c.mod); p = toptr(c.ex.load(c.st, L, ('ptr',), c.mod))
    return [c.wrap(toptr(c.ex.load(c.st, pshift(p, I(8 * k)), ('ptr',), c.mod)), TB) for k in range(cv(n))]
def tstep(c, t, fn, *a, none=None):
    n = t.cls + '::' + fn
    return REG[n].spec(c, t, *a) if n in REG else none() if none else None
class TransView(View):
    def walk(s, fn, x, *a, inv=False):
        c = s.c
        for t in (reversed(elems(c, s)) if inv else elems(c, s)):
            r = tstep(c, t, fn, x, *a)
            if r is not None: x = r if isinstance(r, (T, View)) else r
        return x
    def pre(s, k): return s.n_vars_usernlp if k == 'n' else s.n_vars_local_usernlp
VIEW[TR] = TransView
def KC(sig, **kw): return K(COMP, TR + '::' + sig, variants=VARIANTS, vmode='list', **kw)
def uor(k): return lambda env, nm, args: (vu if env.variant[0] == RM else KIND['x'])(env, nm)
@KC('apply_inv_to_x(%s, bool const&)' % VR, args={0: kvec('x')})
def _(c, s, x, new): return s.walk('apply_inv_to_x(%s, bool const&)' % VR, x, new, inv=True)
def two(env, nm, args): return vx(env, nm) if env.variant[0] == RM else args[1]
@KC('apply_to_x(%s, %s)' % (VR, VR), args={0: uor('x'), 1: two})
def _(c, s, x, o):
    ts = elems(c, s)
    for t in ts:
        if t.cls == RM: tstep(c, t, 'apply_to_x(%s, %s)' % (VR, VR), x, o)
        elif t.cls == RX: c.require(ptr_eq(x.rawptr('data_'), o.rawptr('data_')), 'same vector')
for w in ('obj',):
    @KC('apply_to_obj(double&)')
    def _(c, s, f):
        r = f.v
        for t in elems(c, s):
            if t.cls == SC: r = mul(t.scale_factor_obj, r)
        return r
    @KC('apply_inv_to_obj(double&)')
    def _(c, s, f):
        r = f.v
        for t in elems(c, s):
            if t.cls == SC: r = div(r, t.scale_factor_obj)
        return r
def gbuf(env, nm, args):
    if env.variant[0] != RM: return vx(env, nm)
    return toptr(args[0].base.lazy_cells[env.members(TR)['list_trans_'][0]][1]).base.ptrcol(0).f(I(0)).base.over['grad_fs']
@KC('apply_inv_to_grad_obj(%s)' % VR, args={0: kvec('x')})
def _(c, s, g): return s.walk('apply_inv_to_grad_obj(%s)' % VR, g, inv=True)
@KC('apply_to_grad_obj(%s)' % VR, args={0: gbuf})
def _(c, s, g): return s.walk('apply_to_grad_obj(%s)' % VR, g)
for w, kk in (('cons_eq', ksc('c')), ('cons_ineq', ksc('d')), ('cons', lambda env, nm, args: vec(env, nm, env.sym('mcd', 'I')))):
    for inv in (0, 1):
        sg = 'apply_%sto_%s(%s, int const&)' % ('inv_' if inv else '', w, VR)
        @KC(sg, args={0: kk})
        def _(c, s, v, m, sg=sg, inv=inv): return s.walk(sg, v, m, inv=inv)
def jbuf(k):
    def f(env, nm, args):
        if env.variant[0] != RM: return kjac(k, 0)(env, nm, args)
        return toptr(args[0].base.lazy_cells[env.members(TR)['list_trans_'][0]][1]).base.ptrcol(0).f(I(0)).base.over['Jac%s_fs' % k]
    return f
for w, k in (('eq', 'c'), ('ineq', 'd')):
    for inv in (0, 1):
        sg = 'apply_%sto_jacob_%s(%s, int const&)' % ('inv_' if inv else '', w, MR_)
        @KC(sg, args={0: kjac(k, 0) if inv else jbuf(k)})
        def _(c, s, J, m, sg=sg, inv=inv): return s.walk(sg, J, m, inv=inv)
for n_ in ('n_pre', 'n_pre_local', 'n_post', 'n_post_local'):
    @KC(n_ + '()')
    def _(c, s, n_=n_):
        u = s.n_vars_local_usernlp if 'local' in n_ else s.n_vars_usernlp
        if 'post' not in n_: return u
        r = u
        for t in elems(c, s):
            r = tstep(c, t, n_ + '()') if t.cls == RM else t.n_vars_local if 'local' in n_ else t.n_vars
        return r
ALL = REMOVE + RELAX + SCALE + COMP

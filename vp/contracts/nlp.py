"""Contracts of hiopNlpFormulation and of the problem transformations (bounds, fixed variables, scaling)."""
from .base import *
from . import iterate as ITR, dense as DEN
from .iterate import g
SRC = VEC.SRC + ['LinAlg/hiopVectorIntSeq.cpp', 'LinAlg/hiopMatrixDenseRowMajor.cpp', 'Optimization/hiopIterate.cpp', 'Optimization/hiopNlpFormulation.cpp', 'Optimization/hiopNlpTransforms.cpp']
P = 'hiop::hiopNlpFormulation::'; N_ = 'hiop::hiopNlpFormulation'
V1 = 'hiop::hiopVector&'
# ------------------------------------------------------------- options: a map from names to values
def opt(ex, i, kind, sort):
    """value of an option: a constant of the run"""
    if isc(i) and cv(i) in intrin.STRVAL:
        n = intrin.STRVAL[cv(i)]
        if (kind, n) in FIXED: return intrin.strid(FIXED[kind, n])
        return ex.env.sym('%s:%s' % (kind, n), sort)
    return uf(kind, [i], sort)
# the build has host memory only
FIXED = {('stroption', 'mem_space'): 'default'}
def optid(cx, k=1): return intrin.cstrid(cx, cx.args[k])
@intrin.ext(r'^virt:hiop::hiopOptions(NLP)?:5$|^hiop::hiopOptions::GetNumeric\(char const\*\) const$')
def _(cx): return opt(cx.ex, optid(cx), 'option', 'R')
@intrin.ext(r'^virt:hiop::hiopOptions(NLP)?:6$|^hiop::hiopOptions::GetInteger\(char const\*\) const$')
def _(cx): return opt(cx.ex, optid(cx), 'option', 'I')
@intrin.ext(r'^virt:hiop::hiopOptions(NLP)?:7$|^hiop::hiopOptions::GetString.*\(char const\*\) const$')
def _(cx): intrin.swrite(cx, cx.args[0], opt(cx.ex, optid(cx, 2), 'stroption', 'I')); return S.UNDEF
def num(c, n): return opt(c.ex, intrin.strid(n), 'option', 'R')
def inum(c, n): return opt(c.ex, intrin.strid(n), 'option', 'I')
def isopt(c, n, v): return eq(opt(c.ex, intrin.strid(n), 'stroption', 'I'), intrin.strid(v))
# ------------------------------------------------------------- shapes
BV = (('xl', 'xl_', -1), ('xu', 'xu_', 1), ('dl', 'dl_', -1), ('du', 'du_', 1))
def shape_relaxer(env, b, **kw):
    for k, _, _s in BV: b.over[k + '_ori'] = KIND[k[0]](env, b.name + '.' + k)
SHAPE['hiop::hiopBoundsRelaxer'] = shape_relaxer
def shape_scaling(env, b, **kw):
    me, mi = space(env)['c'][0], space(env)['d'][0]
    b.over['scale_factor_c'] = vc(env, b.name + '.sc'); b.over['scale_factor_d'] = vd(env, b.name + '.sd'); b.over['scale_factor_cd'] = vec(env, b.name + '.scd', env.sym('mcd', 'I'))
    env.fact(eq(env.sym('mcd', 'I'), add(me, mi)))
    env.set(b, 'n_eq', me); env.set(b, 'n_ineq', mi)
SHAPE['hiop::hiopNLPObjGradScaling'] = shape_scaling
_shape0 = SHAPE[NLPC]
def shape_nlp2(env, b, **kw):
    _shape0(env, b, **kw)
    b.over['nlp_scaling_'] = maybe(env, 'noscaling', mkptr(env.obj('hiop::hiopNLPObjGradScaling', 'scaling')))
    b.over['relax_bounds_'] = mkptr(env.obj('hiop::hiopBoundsRelaxer', 'relaxer'))
SHAPE[NLPC] = shape_nlp2
# ------------------------------------------------------------- bounds
def obj_scale(c, s):
    sc = s.nlp_scaling_; return ite(sc.isnull(), R(1), c.wrap(sc.ptr.nonnull(), 'hiop::hiopNLPObjGradScaling').scale_factor_obj) if sc.ptr.alts[0][1] is not None or len(sc.ptr.alts) > 1 else R(1)
def self_nlp(env, st): return the_nlp(env)
@contract(P + 'get_obj_scale() const', args={'this': self_nlp})
def _(c, s): return obj_scale(c, s)
@contract('hiop::hiopNLPObjGradScaling::get_obj_scale() const')
def _(c, s): return s.scale_factor_obj
@contract(P + 'adjust_bounds(hiop::hiopIterate const&)', args={'this': self_nlp})
def _(c, s, it):
    patterns_(c, s)
    for sl, z, x, b, p, sg in ITR.BL:
        X, SL, P_, B = g(it, x).a, g(it, sl).a, g(s, p).a, g(s, b)
        # the bound that makes the slack exact, where there is one
        B.a = (lambda X, SL, sg, P_, O: lambda j: ite(one(P_(j)), sub(X(j), scale(sg, SL(j))), O(j)))(X, SL, sg, P_, B.a)
def patterns_(c, s): boolpat(c, s.ixl_, s.ixu_, s.idl_, s.idu_)
def relaxed(B, O, sg, p): return lambda j: add(mul(scale(sg, p), maxr(absr(B(j)), R(1))), O(j))
BR = 'double const&, %s, %s, %s, %s' % (V1, V1, V1, V1)
BRA = {1: kvec('x'), 2: kvec('x'), 3: kvec('d'), 4: kvec('d')}
for nm, ori in (('relax', False), ('relax_from_ori', True)):
    @contract('hiop::hiopBoundsRelaxer::%s(%s)' % (nm, BR), args=BRA)
    def _(c, s, p, xl, xu, dl, du, ori=ori):
        p = p.v
        for (k, m, sg), v in zip(BV, (xl, xu, dl, du)):
            O = g(s, k + '_ori').a; v.a = relaxed(O if ori else v.a, O, sg, p)
def reset_bounds(c, s, p):
    r = s.relax_bounds_
    for k, m, sg in BV:
        O = g(r, k + '_ori').a; g(s, m).a = relaxed(O, O, sg, p)
@contract(P + 'reset_bounds(double)', args={'this': self_nlp})
def _(c, s, p): reset_bounds(c, s, p)
BOUNDS = [n for n in REG if n.startswith(P) or 'BoundsRelaxer' in n]
ALL = [n for n in REG if n.startswith(P) or 'hiop::hiopBoundsRelaxer' in n or 'hiop::hiopNLPObjGradScaling' in n]

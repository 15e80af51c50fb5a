"""Contracts of hiopVectorCompoundPD: every operation is the operation of its parts, block by block (twelve parts, in the order of the
blocks of an iterate or a residual; that is what every constructor in the code builds)."""
from .base import *
from . import vector as VEC, factory as FAC
from .. import stl
SRC = VEC.SRC + ['LinAlg/hiopVectorCompoundPD.cpp', 'Optimization/hiopIterate.cpp', 'Optimization/hiopResidual.cpp', 'LinAlg/LinAlgFactory.cpp', 'Optimization/hiopNlpFormulation.cpp']
CP = 'hiop::hiopVectorCompoundPD'
PARTS = ('x', 'd', 'yc', 'yd', 'sxl', 'sxu', 'sdl', 'sdu', 'zl', 'zu', 'vl', 'vu')
RPARTS = ('rx', 'rd', 'ryc', 'ryd', 'rxl', 'rxu', 'rdl', 'rdu', 'rszl', 'rszu', 'rsvl', 'rsvu')
def vslot(env, b, parts):
    """the std::vector of part pointers"""
    o = b.members['vectors_'][0]; d = S.Block(b.name + '.parts', 'obj'); d.members = {}; d.over = {}; d.env = env; d.cls = None; d.size = 8 * len(parts)
    for k, p in enumerate(parts): d.lazy_cells[8 * k] = (8, p)
    p = mkptr(d)
    for q, v in ((0, p), (8, pshift(p, I(8 * len(parts)))), (16, pshift(p, I(8 * len(parts))))): b.lazy_cells[o + q] = (8, v)
    b.over['n_parts_'] = I(len(parts)); n = I(0)
    for p in parts: n = add(n, p.base.lazy_cells[p.base.members['n_'][0]][1])
    b.over['n_'] = n
def shape_comp(env, b, parts=None, **kw):
    if parts is None: parts = [KIND[ITV[k]](env, '%s.%s' % (b.name, k)) for k in PARTS]
    vslot(env, b, parts)
SHAPE[CP] = shape_comp
class CompView(CT.View):
    @property
    def parts(s):
        c = s.c; o = s._mem('vectors_')[0]
        d = toptr(c.ex.load(c.st, pshift(s.ptr, I(o)), ('ptr',), c.mod))
        return [c.wrap(toptr(c.ex.load(c.st, pshift(d, I(8 * k)), ('ptr',), c.mod)), 'hiop::hiopVectorPar') for k in range(len(PARTS))]
    def __getitem__(s, k): return s.parts[PARTS.index(k) if k in PARTS else RPARTS.index(k)]
CT.VIEW[CP] = CompView
def comp(env, nm, args=None): return mkptr(env.obj(CP, nm))
V_ = ('hiop::hiopVector const&', 'hiop::hiopVector&')
def wrapc(c, p): return c.wrap(p, CP)
def total(f):
    def g(rs):
        v = rs[0]
        for r in rs[1:]: v = f(v, r)
        return v
    return g
def allof(rs): return and_(*[tob(r) for r in rs])
def anyof(rs): return or_(*[tob(r) for r in rs])
def tob(x): return x if x.sort == 'B' else not_(eq(x, I(0)))
def all01(rs): return ite(allof(rs), I(1), I(0))
COMB = dict(twonorm=lambda rs: sqrt(total(add)([mul(r, r) for r in rs])), dotProductWith=total(add), infnorm=lambda rs: total(maxr)([R(0)] + rs), infnorm_local=lambda rs: total(maxr)([R(0)] + rs),
    onenorm=total(add), onenorm_local=total(add), sum_local=total(add), min=lambda rs: total(minr)([VEC.DBL_MAX] + rs), min_w_pattern=lambda rs: total(minr)([VEC.DBL_MAX] + rs), logBarrier_local=total(add), linearDampingTerm_local=total(add),
    numOfElemsLessThan=total(add), numOfElemsAbsLessThan=total(add), allPositive=all01, allPositive_w_patternSelect=all01, matchesPattern=allof, is_zero=allof,
    isnan_local=anyof, isinf_local=anyof, isfinite_local=allof, fractionToTheBdry_local=lambda rs: total(minr)([R(1)] + rs), fractionToTheBdry_w_pattern_local=lambda rs: total(minr)([R(1)] + rs), projectIntoBounds_local=allof)
SKIP = ('copyFrom(double const*)', 'copyTo(', 'copy_from_vectorpar', 'copy_to_vectorpar', 'tarting', 'indexes', 'two_vec', 'is_equal', 'set_array', 'alloc_clone', 'new_copy', 'hiopVectorInt', 'hiopVectorPar(')
GROUP = dict(MAP=[], RED=[], BND=[])
def lift(name):
    par = REG[name]; op = name[len(VEC.P):].split('(')[0]; tys = CT.sigtypes(name)
    isv = [t in V_ for t in tys]
    @contract(name.replace('hiopVectorPar', 'hiopVectorCompoundPD'), args={k: (lambda env, nm, args: comp(env, nm)) for k, v in enumerate(isv) if v}, wrap={k: wrapc for k, v in enumerate(isv) if v})
    def _(c, s, *a):
        ps = s.parts; al = [x.parts if v else None for x, v in zip(a, isv)]; rs = []
        for k in range(len(PARTS)):
            rs.append(par.spec(c, ps[k], *[l[k] if l is not None else x for l, x in zip(al, a)]))
        if op in COMB: return COMB[op](rs)
        if any(r is not None for r in rs): raise ValueError(op)
    return _
for k in ('MAP', 'RED', 'BND'):
    for n in getattr(VEC, k):
        if n.startswith(VEC.P) and not any(x in n for x in SKIP): lift(n); GROUP[k].append(n.replace('hiopVectorPar', 'hiopVectorCompoundPD'))
MAP, RED, BND = GROUP['MAP'], GROUP['RED'], GROUP['BND']
def copyall(c, s, o, names):
    for p, k in zip(s.parts, names): VEC.REG[VEC.P + 'copyFrom(%s)' % VEC.V].spec(c, p, getattr(o, k))
@contract(CP + '::copy_from_resid(hiop::hiopResidual const*)')
def _(c, s, r): copyall(c, s, r, RPARTS)
@contract(CP + '::copy_from_iterate(hiop::hiopIterate const*)')
def _(c, s, it): copyall(c, s, it, PARTS)
MAP += [CP + '::copy_from_resid(hiop::hiopResidual const*)', CP + '::copy_from_iterate(hiop::hiopIterate const*)']
# construction
def build(c, s, ptrs, own):
    vt = FAC.vt; vt(c, s, CP); o = s._mem('vectors_')[0]; n = I(0)
    for k in (0, 8, 16): c.ex.store(c.st, pshift(s.ptr, I(o + k)), S.NULL, ('ptr',), c.mod)
    for v in ptrs: stl.vpush(c.ex, c.st, pshift(s.ptr, I(o)), v.ptr, c.mod, True); n = add(n, v.n_)
    s.n_ = n; s.n_parts_ = I(len(ptrs)); s.own_vectors_ = TRUE if own else FALSE
@contract(CP + '::hiopVectorCompoundPD(hiop::hiopIterate const*)', args={'this': FAC.raw(CP)})
def _(c, s, it): build(c, s, [getattr(it, k) for k in PARTS], False)
@contract(CP + '::hiopVectorCompoundPD(hiop::hiopResidual const*)', args={'this': FAC.raw(CP)})
def _(c, s, r): build(c, s, [getattr(r, k) for k in RPARTS], False)
@contract(CP + '::hiopVectorCompoundPD(hiop::hiopVectorCompoundPD const&)', args={'this': FAC.raw(CP)})
def _(c, s, v): build(c, s, [VEC._mkvec(c, p, False) for p in v.parts], True); s.n_ = v.n_
@contract(CP + '::alloc_clone() const')
def _(c, s): v = c.new(CP); build(c, v, [VEC._mkvec(c, p, False) for p in s.parts], True); v.n_ = s.n_; return v
@contract(CP + '::new_copy() const')
def _(c, s): v = c.new(CP); build(c, v, [VEC._mkvec(c, p, True) for p in s.parts], True); v.n_ = s.n_; return v
MAP += [n for n in REG if n.startswith(CP) and ('::hiopVectorCompoundPD(' in n or 'alloc_clone' in n or 'new_copy' in n)]
ALL = MAP + RED + BND

"""Shapes shared by the solver-level contracts: NLP, iterate, residual; models of logging and timing."""
from ..contract import *
from .. import contract as CT, verify as VF, intrin, sym as S, terms as TM
from .vector import *
from . import vector as VEC
import re
NLPC = 'hiop::hiopNlpDenseConstraints'
CT.IMPL.update({'hiop::hiopNlpFormulation': NLPC})
def nop(rx, r=lambda cx: S.UNDEF):
    VF.PATTERNS.append((re.compile(rx), r))
nop(r'^(void )?hiop::hiopLogger::')
nop(r'^hiop::hiopTimer::(start|stop|reset|hiopTimer|operator=|~hiopTimer)')
nop(r'^hiop::hiopTimer::(getElapsedTime|getElapsedTimeHMS)', lambda cx: fresh('time', 'R'))
nop(r'^hiop::hiopRunKKTSolStats::|^hiop::hiopLinSolStats::|^hiop::hiopRunStats::')

def vec(env, name, n, il=None, ng=None, cls='hiop::hiopVectorPar'):
    """a vector of n local elements; not distributed unless il, ng are given"""
    kw = dict(n=n)
    if il is None: kw['local'] = True
    else: kw['il'] = il; kw['ng'] = ng
    return mkptr(env.obj(cls, name, **kw))
def space(env):
    """the dimensions of the problem: n (local part of x), meq, mineq"""
    sp = getattr(env, 'sp', None)
    if sp is None:
        n, il, ng, me, mi = [env.sym(k, 'I') for k in ('n', 'x.il', 'x.ng', 'meq', 'mineq')]
        for k in (n, il, me, mi): env.fact(ge(k, I(0)))
        env.fact(le(add(il, n), ng))
        sp = env.sp = dict(x=(n, il, ng), c=(me, None, None), d=(mi, None, None))
    return sp
def vx(env, nm): return vec(env, nm, *space(env)['x'])
def vc(env, nm): return vec(env, nm, *space(env)['c'])
def vd(env, nm): return vec(env, nm, *space(env)['d'])
KIND = {'x': vx, 'c': vc, 'd': vd}
NLPV = dict(xl_='x', xu_='x', ixl_='x', ixu_='x', c_rhs_='c', dl_='d', du_='d', idl_='d', idu_='d')
def scratch(env, p):
    """memory outside the contract (work space)"""
    for g, b, o in p.alts:
        if b is None: continue
        b.scratch = True
        if getattr(b, 'rowdata', None) is not None: b.rowdata.scratch = True
        for sz, v in b.lazy_cells.values():
            if isinstance(v, S.Ptr): scratch(env, v)
    return p
def ghost(env, name):
    """a ghost integer (specification-only state)"""
    gs = env.__dict__.setdefault('ghosts', {})
    if name not in gs:
        b = S.Block(name, 'obj'); b.members = {}; b.over = {}; b.env = env; b.mkcell = lambda off, ty: env.sym(name, 'I'); b.cls = None; gs[name] = b
    return mkptr(gs[name])
def maybe(env, name, p):
    """pointer that is null or p"""
    c = env.sym(name + '.isnull', 'B')
    return S.ptr_ite(c, S.NULL, p)
def shape_nlp(env, b, **kw):
    env.nlp = b
    for m, k in NLPV.items():
        b.over[m] = KIND[k](env, 'nlp.' + m)
    n, il, ng = space(env)['x']; me = space(env)['c'][0]; mi = space(env)['d'][0]
    env.set(b, 'n_vars_', ng); env.set(b, 'n_cons_eq_', me); env.set(b, 'n_cons_ineq_', mi); env.set(b, 'n_cons_', add(me, mi))
def the_nlp(env, nm=None):
    if getattr(env, 'nlp', None) is None: env.obj(NLPC, 'nlp')
    return mkptr(env.nlp)
SHAPE[NLPC] = shape_nlp
ITV = dict(x='x', d='d', sxl='x', sxu='x', sdl='d', sdu='d', yc='c', yd='d', zl='x', zu='x', vl='d', vu='d')
def shape_it(env, b, **kw):
    for m, k in ITV.items(): b.over[m] = KIND[k](env, b.name + '.' + m)
    b.over['nlp'] = the_nlp(env)
    c = env.sym(b.name + '.noscratch', 'B')
    for m, k in dict(sx_arg1_='x', sx_arg2_='x', sx_arg3_='x', sd_arg1_='d', sd_arg2_='d', sd_arg3_='d').items():
        b.over[m] = S.ptr_ite(c, S.NULL, scratch(env, KIND[k](env, b.name + '.' + m)))
SHAPE['hiop::hiopIterate'] = shape_it
CT.IGNORE['hiop::hiopIterate'] = ['sx_arg1_', 'sx_arg2_', 'sx_arg3_', 'sd_arg1_', 'sd_arg2_', 'sd_arg3_']
RSV = dict(rx='x', rd='d', ryc='c', ryd='d', rxl='x', rxu='x', rdl='d', rdu='d', rszl='x', rszu='x', rsvl='d', rsvu='d')
def shape_res(env, b, **kw):
    for m, k in RSV.items(): b.over[m] = KIND[k](env, b.name + '.' + m)
    b.over['nlp'] = the_nlp(env)
SHAPE['hiop::hiopResidual'] = shape_res
def kvec(k):
    """argument hook: a vector of the given kind"""
    return lambda env, nm, args: KIND[k](env, nm)
def sel1(P, v): return lambda j: ite(one(P(j)), v(j), R(0))
def sel0(P, v): return lambda j: ite(zero(P(j)), R(0), v(j))
def boolpat(c, *ps):
    """selection patterns hold zeros and ones"""
    for p in ps:
        P_ = p.a; c.require(Forall(p.n, lambda i: or_(zero(P_(i)), one(P_(i)))), 'pattern is 0/1')
def matches(c, v, p):
    """v is zero wherever the pattern is"""
    A, P_ = v.a, p.a
    c.require(Forall(v.n, lambda i: implies(zero(P_(i)), zero(A(i)))), 'matches its pattern')
def positive(c, v, p):
    A, P_ = v.a, p.a
    c.require(Forall(v.n, lambda i: or_(zero(P_(i)), gt(A(i), R(0)))), 'positive where selected')

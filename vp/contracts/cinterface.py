"""Contracts of the C and Fortran interfaces: the bridge classes call the C callbacks with exactly what HiOp was given, the Fortran
wrappers call the Fortran callbacks likewise, and the solve entry points store what the solver reports.
The callbacks are uninterpreted functions of everything they are given."""
from .base import *
from . import factory as FAC, evals as EVL
from .evals import record, darr_, iarr_, bval, okflag
SRC = ['Interface/chiopInterface.cpp', 'Interface/hiopFortranInterface.c']
BRIDGE, FORT, SOLVE, LIFE = [], [], [], []
FIELDS = 'get_starting_point get_prob_sizes get_vars_info get_cons_info eval_f eval_grad_f eval_cons eval_Jac_cons get_sparse_dense_blocks_info eval_Hess_Lagr'.split()
def shape_prob(env, b, **kw):
    env.cprob = b; u = getattr(env, 'udata', None)
    if u is None: u = env.udata = EVL.ghostobj(env, 'user_data')
    b.over['user_data'] = mkptr(u)
    for f in FIELDS: b.over[f] = S.Fn('ccb:%s:%s' % (b.cls, f))
    b.over['solution'] = mkptr(env.darr(b.name + '.solution', env.sym('n', 'I')))
CD, CM = 'cHiopDenseProblem', 'cHiopMDSProblem'
SHAPE[CD] = SHAPE[CM] = shape_prob
def bridge_self(cls, prob):
    def f(env, st):
        b = env.obj(cls, 'self'); b.over['cprob'] = mkptr(env.obj(prob, 'prob')); return mkptr(b)
    return f
# ------------------------------------------------------------------ the C callbacks
CCB = {}
def ccb(name, cls='cHiopDenseProblem|cHiopMDSProblem'):
    def d(f):
        CCB[name] = f
        @intrin.ext(r'^ccb:(%s):%s$' % (cls, name))
        def h(cx):
            cx.env = cx.ex.env
            if not cx.ex.quiet_obl: cx.ex.oblige('callback', cx.st, ptr_eq(toptr(cx.args[-1]), mkptr(cx.env.udata)), '%s is given the user data of the problem' % name)
            f(cx, *cx.args[:-1]); return fresh('crc', 'I')
        return f
    return d
def nonneg(n): return ite(lt(n, I(0)), I(0), n)
def outd(c, p, n, name, sc, ar): Arr(c, EVL.rawp(p)).write(n, lambda j: TM.App(name, list(sc) + [j], ar, 'R'))
def outi(c, p, n, name, sc, ar): Arr(c, EVL.rawp(p), 'I', 4).write(n, lambda j: TM.App(name, list(sc) + [j], ar, 'I'))
def outs(c, p, name, sc=(), so='I'): c.ex.store(c.st, EVL.rawp(p) if not isinstance(p, OutRef) else p.ptr, TM.App(name, list(sc), [], so) if sc else sym(name, so), ('i', 32) if so == 'I' else ('f', 'double'), c.mod)
@ccb('get_prob_sizes')
def _(c, n, m): outs(c, n, 'c.n'); outs(c, m, 'c.m')
@ccb('get_sparse_dense_blocks_info')
def _(c, *ps):
    for p, w in zip(ps, ('nxs', 'nxd', 'nnzJe', 'nnzJi', 'nnzHss', 'nnzHsd')): outs(c, p, 'c.' + w)
@ccb('get_starting_point')
def _(c, n, x): outd(c, x, n, 'c.x0', [n], [])
@ccb('get_vars_info')
def _(c, n, l, u): outd(c, l, n, 'c.xlow', [n], []); outd(c, u, n, 'c.xupp', [n], [])
@ccb('get_cons_info')
def _(c, n, l, u): outd(c, l, n, 'c.clow', [n], []); outd(c, u, n, 'c.cupp', [n], [])
@ccb('eval_f')
def _(c, n, x, new, f):
    c.ex.store(c.st, EVL.rawp(f), TM.App('c.f', [n, bval(new)], [(n, darr_(c, x))], 'R'), ('f', 'double'), c.mod)
@ccb('eval_grad_f')
def _(c, n, x, new, g): outd(c, g, n, 'c.grad', [n, bval(new)], [(n, darr_(c, x))])
@ccb('eval_cons')
def _(c, n, m, x, new, g): outd(c, g, m, 'c.cons', [n, m, bval(new)], [(n, darr_(c, x))])
@ccb('eval_Jac_cons')
def _(c, n, m, x, new, *r):
    sc, ar = [n, m, bval(new)], [(n, darr_(c, x))]
    if len(r) == 1: outd(c, r[0], mul(n, m), 'c.Jac', sc, ar); return
    ns, nd, nnz, iJ, jJ, MJ, JD = r; sc += [ns, nd, nnz, b2i(notnull(iJ)), b2i(notnull(jJ)), b2i(notnull(MJ)), b2i(notnull(JD))]
    outi(c, iJ, nnz, 'c.JacS.i', sc, ar); outi(c, jJ, nnz, 'c.JacS.j', sc, ar); outd(c, MJ, nnz, 'c.JacS.M', sc, ar); outd(c, JD, mul(m, nd), 'c.JacD', sc, ar)
b2i = S.b2i
def notnull(p): return not_(ptr_eq(EVL.rawp(p), S.NULL))
@ccb('eval_Hess_Lagr')
def _(c, n, m, x, new, of, lam, newl, ns, nd, n1, i1, j1, M1_, HDD, n2, i2, j2, M2_):
    sc = [n, m, bval(new), of, bval(newl), ns, nd, n1, n2] + [b2i(notnull(p)) for p in (i1, j1, M1_, HDD, i2, j2, M2_)]; ar = [(n, darr_(c, x)), (m, darr_(c, lam))]
    outi(c, i1, n1, 'c.HSS.i', sc, ar); outi(c, j1, n1, 'c.HSS.j', sc, ar); outd(c, M1_, n1, 'c.HSS.M', sc, ar); outd(c, HDD, mul(nd, nd), 'c.HDD', sc, ar)
    outi(c, i2, n2, 'c.HSD.i', sc, ar); outi(c, j2, n2, 'c.HSD.j', sc, ar); outd(c, M2_, n2, 'c.HSD.M', sc, ar)
# ------------------------------------------------------------------ the bridge
def size(env, nm):
    v = env.sym(nm, 'I'); env.fact(ge(v, I(0))); return v
def ref(nm, so='I'):
    """const reference to a size"""
    def f(env, a, args):
        b = S.Block(a, 'obj'); b.members = {}; b.over = {}; b.env = env; b.cls = None; b.mkcell = lambda off, ty: size(env, nm) if so == 'I' else env.sym(nm, 'R'); return mkptr(b)
    return f
def dar(f): return lambda env, nm, args: mkptr(env.darr(nm, f(env)))
def mdar(f): return lambda env, nm, args: maybe(env, nm, mkptr(env.darr(nm, f(env))))
def miar(f): return lambda env, nm, args: maybe(env, nm, mkptr(env.darr(nm, f(env), 'I', 4)))
Z = lambda nm: lambda env: size(env, nm)
N_, M_ = Z('n'), Z('m')
def prod(a, b): return lambda env: mul(size(env, a), size(env, b))
iar = lambda f: (lambda env, nm, args: mkptr(env.darr(nm, f(env), 'I', 4)))
ity = lambda c, p: Arr(c, p, 'I', 4)
def B(lst, cls, prob, name, args, wrap={}):
    def d(f):
        nm = '%s::%s' % (cls, name); lst.append(nm)
        return contract(nm, args={'this': bridge_self(cls, prob), **args}, wrap=wrap)(f)
    return d
for cls, prob in (('cppUserProblemDense', CD), ('cppUserProblemMDS', CM)):
    @B(BRIDGE, cls, prob, 'get_prob_sizes(int&, int&)', {})
    def _(c, s, n, m): CCB['get_prob_sizes'](c, n.ptr, m.ptr); return TRUE
    @B(BRIDGE, cls, prob, 'get_starting_point(int const&, double*)', {0: ref('n'), 1: dar(N_)})
    def _(c, s, n, x): CCB['get_starting_point'](c, n.v, x); return TRUE
    for w, v in (('vars', 'n'), ('cons', 'm')):
        @B(BRIDGE, cls, prob, 'get_%s_info(int const&, double*, double*, hiop::hiopInterfaceBase::NonlinearityType*)' % w, {0: ref(v), 1: dar(Z(v)), 2: dar(Z(v)), 3: iar(Z(v))}, {3: ity})
        def _(c, s, n, l, u, t, w=w): t.write(n.v, lambda j: I(2)); CCB['get_%s_info' % w](c, n.v, l, u); return TRUE
    @B(BRIDGE, cls, prob, 'eval_f(int const&, double const*, bool, double&)', {0: ref('n'), 1: dar(N_)})
    def _(c, s, n, x, new, f): CCB['eval_f'](c, n.v, x, new, f.ptr); return TRUE
    @B(BRIDGE, cls, prob, 'eval_grad_f(int const&, double const*, bool, double*)', {0: ref('n'), 1: dar(N_), 3: dar(N_)})
    def _(c, s, n, x, new, g): CCB['eval_grad_f'](c, n.v, x, new, g); return TRUE
    # constraints come in one call: the call per group of constraints is declined
    @B(BRIDGE, cls, prob, 'eval_cons(int const&, int const&, int const&, int const*, double const*, bool, double*)', {0: ref('n'), 1: ref('m'), 2: ref('k'), 3: iar(Z('k')), 4: dar(N_), 6: dar(Z('k'))})
    def _(c, s, *a): return FALSE
    @B(BRIDGE, cls, prob, 'eval_cons(int const&, int const&, double const*, bool, double*)', {0: ref('n'), 1: ref('m'), 2: dar(N_), 4: dar(M_)})
    def _(c, s, n, m, x, new, g): CCB['eval_cons'](c, n.v, m.v, x, new, g); return TRUE
cls, prob = 'cppUserProblemDense', CD
@B(BRIDGE, cls, prob, 'eval_Jac_cons(int const&, int const&, int const&, int const*, double const*, bool, double*)', {0: ref('n'), 1: ref('m'), 2: ref('k'), 3: iar(Z('k')), 4: dar(N_), 6: dar(prod('n', 'k'))})
def _(c, s, *a): return FALSE
@B(BRIDGE, cls, prob, 'eval_Jac_cons(int const&, int const&, double const*, bool, double*)', {0: ref('n'), 1: ref('m'), 2: dar(N_), 4: dar(prod('n', 'm'))})
def _(c, s, n, m, x, new, J): CCB['eval_Jac_cons'](c, n.v, m.v, x, new, J); return TRUE
cls, prob = 'cppUserProblemMDS', CM
@B(BRIDGE, cls, prob, 'get_sparse_dense_blocks_info(int&, int&, int&, int&, int&, int&)', {})
def _(c, s, *p): CCB['get_sparse_dense_blocks_info'](c, *[x.ptr for x in p]); return TRUE
JT = 'double const*, bool, int const&, int const&, int const&, int*, int*, double*, double*)'
JS = lambda o, m: {o: dar(N_), o + 2: ref('nxs'), o + 3: ref('nxd'), o + 4: ref('nnz'), o + 5: miar(Z('nnz')), o + 6: miar(Z('nnz')), o + 7: mdar(Z('nnz')), o + 8: mdar(prod(m, 'nxd'))}
@B(BRIDGE, cls, prob, 'eval_Jac_cons(int const&, int const&, int const&, int const*, ' + JT, {0: ref('n'), 1: ref('m'), 2: ref('k'), 3: iar(Z('k')), **JS(4, 'k')})
def _(c, s, *a): return FALSE
@B(BRIDGE, cls, prob, 'eval_Jac_cons(int const&, int const&, ' + JT, {0: ref('n'), 1: ref('m'), **JS(2, 'm')}, {7: ity, 8: ity})
def _(c, s, n, m, x, new, ns, nd, nnz, *p): CCB['eval_Jac_cons'](c, n.v, m.v, x, new, ns.v, nd.v, nnz.v, *p); return TRUE
@B(BRIDGE, cls, prob, 'eval_Hess_Lagr(int const&, int const&, double const*, bool, double const&, double const*, bool, int const&, int const&, int const&, int*, int*, double*, double*, int&, int*, int*, double*)',
   {0: ref('n'), 1: ref('m'), 2: dar(N_), 4: ref('of', 'R'), 5: dar(M_), 7: ref('nxs'), 8: ref('nxd'), 9: ref('nss'), 10: miar(Z('nss')), 11: miar(Z('nss')), 12: mdar(Z('nss')), 13: mdar(prod('nxd', 'nxd')), 14: ref('nsd'), 15: miar(Z('nsd')), 16: miar(Z('nsd')), 17: mdar(Z('nsd'))},
   {10: ity, 11: ity, 15: ity, 16: ity})
def _(c, s, n, m, x, new, of, lam, newl, ns, nd, n1, i1, j1, M1_, HDD, n2, i2, j2, M2_):
    CCB['eval_Hess_Lagr'](c, n.v, m.v, x, new, of.v, lam, newl, ns.v, nd.v, n1.v, i1, j1, M1_, HDD, n2.v, i2, j2, M2_); return TRUE
# ------------------------------------------------------------------ the Fortran callbacks and their wrappers
def fcb(name):
    def d(f):
        CCB['f.' + name] = f
        @intrin.ext(r'^fcb:%s$' % name)
        def h(cx):
            cx.env = cx.ex.env
            rd = lambda p: cx.ex.load(cx.st, toptr(p), ('i', 32), cx.mod)
            k = 2 if name in ('f_eval_f', 'f_eval_grad') else 3
            a = list(cx.args); i = k - 2
            f(cx, *[rd(p) for p in a[:i + 1]], a[i + 1], rd(a[i + 2]), *a[i + 3:]); return S.UNDEF
        return f
    return d
@fcb('f_eval_f')
def _(c, n, x, new, f): c.ex.store(c.st, EVL.rawp(f), TM.App('f.f', [n, bval(new)], [(n, darr_(c, x))], 'R'), ('f', 'double'), c.mod)
@fcb('f_eval_grad')
def _(c, n, x, new, g): outd(c, g, n, 'f.grad', [n, bval(new)], [(n, darr_(c, x))])
@fcb('f_eval_c')
def _(c, n, m, x, new, g): outd(c, g, m, 'f.cons', [n, m, bval(new)], [(n, darr_(c, x))])
@fcb('f_eval_jac')
def _(c, n, m, x, new, J): outd(c, J, mul(n, m), 'f.jac', [n, m, bval(new)], [(n, darr_(c, x))])
def shape_f(env, b, **kw):
    n, m = size(env, 'n'), size(env, 'm'); env.set(b, 'n', n); env.set(b, 'm', m)
    for w, k in dict(xlow=n, xupp=n, x0=n, clow=m, cupp=m).items(): b.over[w] = mkptr(env.darr('f.' + w, k))
    for w in ('f_eval_f', 'f_eval_c', 'f_eval_grad', 'f_eval_jac'): b.over[w] = S.Fn('fcb:' + w)
    env.udata = b; b.over['c_prob'] = mkptr(env.obj(CD, 'f.c_prob'))
SHAPE['FDenseProb'] = shape_f
def fprob(env, nm, args): return mkptr(env.obj('FDenseProb', 'fprob'))
fview = lambda c, p: c.wrap(p, 'FDenseProb')
def sz(nm): return lambda env, a, args: size(env, nm)
def sc(nm, so='I'): return lambda env, a, args: env.sym(nm, so)
def cell(nm, ty=('i', 32)):
    """pointer to a scalar"""
    def f(env, a, args):
        b = S.Block(nm, 'obj'); b.members = {}; b.over = {}; b.env = env; b.cls = None; b.mkcell = lambda off, t: env.sym(nm, 'R' if t[0] == 'f' else 'I'); return mkptr(b)
    return f
da = lambda c, p: Arr(c, p)
def CF(lst, name, cargs, cwrap, **kw):
    def d(f): lst.append(name); return contract(name, cargs=cargs, cwrap=cwrap, **kw)(f)
    return d
def ok(f):
    def g(*a): f(*a); return I(0)
    return g
W = '_dense_wrapper'
@CF(FORT, 'get_starting_point' + W, [sz('n'), dar(N_), fprob], [None, da, fview])
@ok
def _(c, n, x, p): x.write(p.n, p.x0.snap())
@CF(FORT, 'get_prob_sizes' + W, [cell('pn'), cell('pm'), fprob], [None, None, fview])
@ok
def _(c, n, m, p): c.ex.store(c.st, toptr(n), p.n, ('i', 32), c.mod); c.ex.store(c.st, toptr(m), p.m, ('i', 32), c.mod)
for w, a, b in (('vars', 'n', 'x'), ('cons', 'm', 'c')):
    @CF(FORT, 'get_%s_info%s' % (w, W), [sz(a), dar(Z(a)), dar(Z(a)), fprob], [None, da, da, fview])
    @ok
    def _(c, n, l, u, p, a=a, b=b): k = getattr(p, a); l.write(k, getattr(p, b + 'low').snap()); u.write(k, getattr(p, b + 'upp').snap())
@CF(FORT, 'eval_f' + W, [sz('n'), dar(N_), sc('new'), cell('obj'), fprob], [None] * 4 + [fview])
@ok
def _(c, n, x, new, f, p): CCB['f.f_eval_f'](c, p.n, x, new, f)
@CF(FORT, 'eval_grad' + W, [sz('n'), dar(N_), sc('new'), dar(N_), fprob], [None] * 4 + [fview])
@ok
def _(c, n, x, new, g, p): CCB['f.f_eval_grad'](c, p.n, x, new, g)
@CF(FORT, 'eval_c' + W, [sz('n'), sz('m'), dar(N_), sc('new'), dar(M_), fprob], [None] * 5 + [fview])
@ok
def _(c, n, m, x, new, g, p): CCB['f.f_eval_c'](c, p.n, p.m, x, new, g)
@CF(FORT, 'eval_jac' + W, [sz('n'), sz('m'), dar(N_), sc('new'), dar(prod('n', 'm')), fprob], [None] * 5 + [fview])
@ok
def _(c, n, m, x, new, J, p): CCB['f.f_eval_jac'](c, p.n, p.m, x, new, J)
# ------------------------------------------------------------------ solving: what the solver reports is what is stored
# the solver itself is opaque here: what run() and the queries after it mean is the subject of other properties
def ran(c, p): return ptr_eq(toptr(c.ex.load(c.st, mkptr(RAN), ('ptr',), c.mod)), toptr(p))
def qsolver(cls):
    P = 'hiop::hiopAlgFilterIPM' + cls + '::'; BA = 'hiop::hiopAlgFilterIPMBase::'
    def ctor(cx): cx.env = cx.ex.env; st8(cx, cx.args[0], cx.args[1]); cx.ex.store(cx.st, ghost(cx.env, 'ran'), I(0), ('i', 32), cx.mod); return S.UNDEF
    def nlpof(cx): return toptr(cx.ex.load(cx.st, toptr(cx.args[0]), ('ptr',), cx.mod))
    def run(cx):
        cx.env = cx.ex.env
        cx.ex.oblige('solver', cx.st, ptr_eq(nlpof(cx), mkptr(cx.env.thenlp)), 'the solver works on the problem given'); cx.ex.store(cx.st, ghost(cx.env, 'ran'), I(1), ('i', 32), cx.mod)
        return sym('solver.status', 'I')
    def after(cx): cx.ex.oblige('solver', cx.st, eq(cx.ex.load(cx.st, ghost(cx.ex.env, 'ran'), ('i', 32), cx.mod), I(1)), 'asked after the solve')
    def q(nm, so):
        def h(cx): after(cx); return sym(nm, so)
        return h
    def sol(cx): cx.env = cx.ex.env; after(cx); finalx(cx, cx.args[1]); return S.UNDEF
    return {P + 'hiopAlgFilterIPM%s(%s*, bool)' % (cls, NLPOF[cls]): ctor, P + '~hiopAlgFilterIPM%s()' % cls: lambda cx: S.UNDEF, P + 'run()': run,
            BA + 'getObjective() const': q('solver.objective', 'R'), BA + 'getNumIterations() const': q('solver.iterations', 'I'), BA + 'getSolution(double*) const': sol,
            BA + 'getSolveStatus() const': q('solver.status', 'I')}
NLPOF = {'Newton': 'hiop::hiopNlpFormulation', 'QuasiNewton': 'hiop::hiopNlpDenseConstraints'}
def st8(cx, p, v): cx.ex.store(cx.st, toptr(p), v, ('ptr',), cx.mod)
def finalx(c, p): Arr(c, EVL.rawp(p)).write(sym('n', 'I'), lambda j: TM.App('solver.x', [j], [], 'R'))
def probarg(cls):
    def f(env, nm, args):
        b = env.obj(cls, 'prob'); env.thenlp = EVL.ghostobj(env, 'nlp'); b.over['refcppHiop'] = mkptr(env.thenlp); env.fact(ge(env.sym('n', 'I'), I(0))); return mkptr(b)
    return f
pview = lambda cls: lambda c, p: c.wrap(p, cls)
def solved(c, p, full):
    if full: p.status = sym('solver.status', 'I'); p.niters = sym('solver.iterations', 'I')
    p.obj_value = sym('solver.objective', 'R'); finalx(c, p.solution)
    c.ex.store(c.st, ghost(c.env, 'ran'), I(1), ('i', 32), c.mod)
@CF(SOLVE, 'hiop_dense_solve_problem', [probarg(CD)], [pview(CD)], calls=qsolver('QuasiNewton'), opaque=True)
@ok
def _(c, p): solved(c, p, True)
@CF(SOLVE, 'hiop_mds_solve_problem', [probarg(CM)], [pview(CM)], calls=qsolver('Newton'))
@ok
def _(c, p): c.require(le(sym('solver.status', 'I'), I(12)), 'status range'); solved(c, p, False)
# ------------------------------------------------------------------ creation and destruction
# the formulation's constructor is assumed to keep the interface it is given and to own an options object
def nlpctor(cls):
    def h(cx):
        cx.env = cx.ex.env; v = cx.env.members(cls)
        c = Ctx(cx.ex, cx.st, 'call', cx.mod); s = View(c, cx.args[0], cls); FAC.setp(c, s, 'interface', toptr(cx.args[1]))
        b = S.Block('options', 'obj', None, 'hiop::hiopOptions'); b.members = {}; b.over = {}; b.env = cx.env; b.mkcell = lambda off, ty: mkptr(cx.env.opaque_vt('hiop::hiopOptions'), 16)
        FAC.setp(c, s, 'options', mkptr(b)); return S.UNDEF
    return h
def setopt(cx):
    cx.env = cx.ex.env; n = cx.ex.cstr(cx.args[1])
    if n == 'Hessian': cx.ex.store(cx.st, ghost(cx.env, 'option:Hessian'), intrin.cstrid(cx, cx.args[2]), ('i', 64), cx.mod)
    return TRUE
@intrin.ext(r'^virt:hiop::hiopOptions(NLP)?:4$')
def _(cx): return setopt(cx)
@intrin.ext(r'^virt:hiop::hiopOptions(NLP)?:[23]$')
def _(cx): return TRUE
ND, NM = 'hiop::hiopNlpDenseConstraints', 'hiop::hiopNlpMDS'
def rawprob(cls):
    def f(env, nm, args):
        b = S.Block('prob', 'obj', None, cls); b.members = env.members(cls); b.size = env._sz; b.over = {}; b.env = env; b.ignore = set(); b.mkcell = lambda off, ty: env.mkcell(b, off, ty)
        shape_prob(env, b); return mkptr(b)
    return f
def created(c, p, cls, nc, hess):
    """a problem over the bridge, which calls back through the C struct"""
    u = c.new(cls); vt_(c, u, cls); FAC.setp(c, u, 'cprob', p.ptr)
    n = c.new(nc); FAC.setp(c, n, 'interface', u.ptr); drop(c, n)
    c.ex.store(c.st, ghost(c.env, 'option:Hessian'), intrin.strid(hess), ('i', 64), c.mod)
    p.refcppHiop = n.ptr; p.hiopinterface = u.ptr
def drop(c, v): c.st.wr(v.ptr.base).cells.pop(0, None)
def vt_(c, v, cls): c.st.wr(v.ptr.base).cells[0] = (8, mkptr(c.ex.gblock('_ZTV%d%s' % (len(cls), cls)), 16))
@CF(LIFE, 'hiop_dense_create_problem', [rawprob(CD)], [pview(CD)], calls={ND + '::hiopNlpDenseConstraints(hiop::hiopInterfaceDenseConstraints&, char const*)': nlpctor(ND)}, opaque=True)
@ok
def _(c, p): created(c, p, 'cppUserProblemDense', ND, 'quasinewton_approx')
@CF(LIFE, 'hiop_mds_create_problem', [rawprob(CM)], [pview(CM)], calls={NM + '::hiopNlpMDS(hiop::hiopInterfaceMDS&, char const*)': nlpctor(NM)})
@ok
def _(c, p): created(c, p, 'cppUserProblemMDS', NM, 'analytical_exact')
# destruction: the formulation and the bridge are deleted
def delnlp(cx): intrin.released(cx, cx.args[0]); return S.UNDEF
def dprob(cls, bridge):
    def f(env, nm, args):
        env.track_release = {}
        p = rawprob(cls)(env, nm, args); b = p.base
        n = EVL.ghostobj(env, 'thenlp'); n.mkcell = lambda off, ty: mkptr(dvt(env), 16); b.over['refcppHiop'] = mkptr(n)
        u = env.obj(bridge, 'bridge'); u.lazy_cells[0] = (8, mkptr(env.ex.gblock('_ZTV%d%s' % (len(bridge), bridge)), 16)); b.over['hiopinterface'] = mkptr(u); env.reld = [n, u]
        return p
    return f
def dvt(env):
    b = S.Block('@vt:thenlp', 'global'); b.mkcell = lambda off, ty: S.Fn('deletenlp' if off == 24 else 'virt:nlp:%d' % off); return b
intrin.ext(r'^deletenlp$')(delnlp)
def rel(c, *bs):
    if c.mode == 'verify':
        for b in bs: c.ensures.append(('%s is released' % b.name, lambda c2, r, b=b: intrin.was_released(c2, b)))
for fn, cls, bridge in (('hiop_dense_destroy_problem', CD, 'cppUserProblemDense'), ('hiop_mds_destroy_problem', CM, 'cppUserProblemMDS')):
    @CF(LIFE, fn, [dprob(cls, bridge)], [pview(cls)])
    @ok
    def _(c, p): rel(c, *c.env.reld)
# ------------------------------------------------------------------ the Fortran entry points
def fhandle(env, nm, args):
    b = S.Block('handle', 'obj'); b.members = {}; b.over = {}; b.env = env; b.cls = None; p = fprob(env, nm, args); b.mkcell = lambda off, ty: p; return mkptr(b)
hview = lambda c, p: c.wrap(toptr(c.ex.load(c.st, toptr(p), ('ptr',), c.mod)), 'FDenseProb')
@CF(SOLVE, 'hiopdensesolve_', [fhandle, cell('obj'), dar(N_)], [hview, lambda c, p: OutRef(c, p, ('f', 'double'), 'R'), da])
def _(c, f, obj, sol):
    p = c.wrap(f.c_prob.ptr, CD); REG['hiop_dense_solve_problem'].spec(c, p); sol.write(f.n, p.solution.snap()); obj.v = p.obj_value
def fnp(nm): return lambda env, a, args: S.Fn('fcb:' + nm)
INI = dict(xlow='n', xupp='n', clow='m', cupp='m', x0='n')
def fnew(c, np, mp, *r):
    n, m = [c.ex.load(c.st, toptr(x), ('i', 32), c.mod) for x in (np, mp)]; c.require(and_(ge(n, I(0)), ge(m, I(0))), 'sizes')
    a, cbs = dict(zip(INI, r[:5])), r[5:]
    f = c.new('FDenseProb'); p = c.new(CD, 'newprob')
    for x in (f, p): drop(c, x)
    f.n = n; f.m = m
    for w, k in INI.items():
        k = dict(n=n, m=m)[k]; d = mkptr(c.newarr(k, name='new' + w)); FAC.setp(c, f, w, d); Arr(c, d).write(k, a[w].snap())
    for w, x in zip(('f_eval_f', 'f_eval_c', 'f_eval_grad', 'f_eval_jac'), cbs): FAC.setp(c, f, w, x)
    FAC.setp(c, f, 'c_prob', p.ptr); FAC.setp(c, p, 'user_data', f.ptr)
    for w in 'get_prob_sizes get_vars_info get_cons_info get_starting_point'.split(): FAC.setp(c, p, w, S.Fn(w + W))
    for w, x in dict(eval_f='eval_f', eval_cons='eval_c', eval_grad_f='eval_grad', eval_Jac_cons='eval_jac').items(): FAC.setp(c, p, w, S.Fn(x + W))
    d = mkptr(c.newarr(n, name='newsol')); FAC.setp(c, p, 'solution', d); Arr(c, d).write(n, lambda j: R(0))
    created(c, p, 'cppUserProblemDense', ND, 'quasinewton_approx')
    return f
@CF(LIFE, 'hiopdenseprob_', [cell('n'), cell('m')] + [dar(Z(k)) for k in INI.values()] + [fnp(x) for x in ('f_eval_f', 'f_eval_c', 'f_eval_grad', 'f_eval_jac')], [None, None] + [da] * 5 + [None] * 4)
def _(c, *a): return fnew(c, *a)
def fdel(env, nm, args):
    env.track_release = {}; p = fhandle(env, nm, args); return p
@CF(LIFE, 'deletehiopdenseprob_', [fdel], [lambda c, p: toptr(p)], calls={'hiop_dense_destroy_problem': lambda cx: gone(cx)})
def _(c, h):
    f = hview(c, h); p = f.c_prob; p = c.wrap(p.ptr, CD)
    rel(c, *[getattr(f, w).ptr.base for w in INI], p.solution.ptr.base, p.ptr.base, f.ptr.base)
    if c.mode == 'verify': c.ensures.append(('the C problem is destroyed', lambda c2, r: eq(c2.ex.load(c2.st, ghost(c2.env, 'destroyed'), ('i', 32), c2.mod), I(1))))
    c.ex.store(c.st, h, S.NULL, ('ptr',), c.mod); c.ex.store(c.st, ghost(c.env, 'destroyed'), I(1), ('i', 32), c.mod)
def gone(cx):
    cx.env = cx.ex.env
    cx.ex.oblige('solver', cx.st, eq(cx.ex.load(cx.st, mkptr(intrin.relcell(cx.env.track_release, toptr(cx.args[0]).base)), ('i', 32), cx.mod), I(0)), 'destroyed before its memory is released')
    cx.ex.store(cx.st, ghost(cx.env, 'destroyed'), I(1), ('i', 32), cx.mod); return I(0)
ALL = BRIDGE + FORT + SOLVE + LIFE

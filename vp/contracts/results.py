"""Contracts of the algorithm's evaluation of the problem at an iterate, and of what it hands back to the user after a solve."""
from .base import *
from . import alg as ALG, evals as EVL, scaling as SCL, nlp as NLP, transforms as TRF
from .transforms import VARIANTS, kjac, uspace
SRC = EVL.SRC + [x for x in ALG.SRC if x not in EVL.SRC]
P = ALG.P; N = NLP.P; PD = EVL.PD
V1, M1 = 'hiop::hiopVector&', 'hiop::hiopMatrix&'
EV, GET = [], []
def K(lst, name, **kw):
    def d(f): lst.append(name); return contract(name, **{'variants': VARIANTS, **kw})(f)
    return d
def chain(c, *fs):
    """evaluations in turn, up to the first that fails"""
    if not fs: return TRUE
    ok = fs[0](); r = [FALSE]
    def rest(): r[0] = chain(c, *fs[1:])
    c.when(ok, rest); return and_(ok, r[0])
def call(c, name, n, *a): return lambda: REG[name].spec(c, n, *a)
F = N + 'eval_f(%s, bool, double&)' % V1; G = N + 'eval_grad_f(%s, bool, %s)' % (V1, V1); CD = N + 'eval_c_d(%s, bool, %s, %s)' % (V1, V1, V1); JA = N + 'eval_Jac_c_d(%s, bool, %s, %s)' % (V1, M1, M1)
@K(EV, P + 'evalNlp_funcOnly(hiop::hiopIterate&, double&, %s, %s)' % (V1, V1), args={2: kvec('c'), 3: kvec('d')}, cost=9)
def _(c, s, it, f, cc, dd):
    n, x = s.nlp, it.x
    return chain(c, call(c, F, n, x, TRUE, f), call(c, CD, n, x, FALSE, cc, dd))
@K(EV, P + 'evalNlp_noHess(hiop::hiopIterate&, double&, %s, %s, %s, %s, %s)' % (V1, V1, V1, M1, M1), args={2: kvec('c'), 3: kvec('d'), 4: kvec('x'), 5: kjac('c', 0), 6: kjac('d', 0)}, variants=EVL.NORM, cost=9)
def _(c, s, it, f, cc, dd, g, Jc, Jd):
    n, x = s.nlp, it.x
    return chain(c, call(c, F, n, x, TRUE, f), call(c, G, n, x, FALSE, g), call(c, CD, n, x, FALSE, cc, dd), call(c, JA, n, x, FALSE, Jc, Jd))
@K(GET, P + 'getObjective() const')
def _(c, s): return REG[N + 'user_obj(double)'].spec(c, s.nlp, s._f_nlp)
@K(GET, P + 'getSolution(double*) const', args={0: lambda env, nm, args: mkptr(env.darr(nm, uspace(env)[0]))})
def _(c, s, o): return REG[N + 'user_x(hiop::hiopVector&, double*)'].spec(c, s.nlp, s.it_curr.x, o)
@K(GET, P + 'getDualSolutions(double*, double*, double*)', args={0: EVL.darg('x'), 1: EVL.darg('x'), 2: EVL.darg('m')})
def _(c, s, zl, zu, lam): return REG[N + 'get_dual_solutions(hiop::hiopIterate const&, double*, double*, double*)'].spec(c, s.nlp, s.it_curr, zl, zu, lam)
SOL = [n for n in GET if 'getSolution' in n]
ALL = EV + GET

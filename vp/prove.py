"""SMT back end: translation of terms to z3, reduction axioms, proof queries."""
import time, z3
from .terms import *
from . import terms as TM

STATS = dict(queries=0, time=0.0, syntactic=0)
class Tr:
    def __init__(self, abs_=False):
        self.abs = abs_; self.nl = False
        self.m = {}; self.reds = {}; self.idx = {}; self.fun = {}; self.side = []
    def sort(self, s): return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]
    def __call__(self, t):
        r = self.m.get(t)
        if r is None:
            st = [t]
            while st:
                x = st[-1]
                if x in self.m: st.pop(); continue
                ks = [k for k in (kids(x) if x.op not in ('red', 'lam') else (list(x.args[1]) if x.op == 'red' else [])) if k not in self.m and not k.sort.startswith('A') and k.sort != 'L']
                if ks: st.extend(ks); continue
                self.m[x] = self.one(x); st.pop()
            r = self.m[t]
        return r
    def f(self, name, dom, rng):
        k = (name, tuple(dom), rng)
        if k not in self.fun:
            self.fun[k] = z3.Function(name + '/' + ''.join(dom), *([self.sort(d) for d in dom] + [self.sort(rng)]))
        return self.fun[k]
    def one(self, t):
        o = t.op; a = t.args; m = self.m
        if o == 'c':
            v = a[0]
            if t.sort == 'B': return z3.BoolVal(v)
            if t.sort == 'I': return z3.IntVal(v)
            return z3.Q(v.numerator, v.denominator)
        if o == 'sym': return z3.Const(a[0], self.sort(t.sort))
        if o == 'bv': raise ValueError('free bound variable')
        if o == 'lin':
            xs = []
            for k, c in a[1]:
                e = m[k]
                if c == 1: xs.append(e)
                else: xs.append((z3.IntVal(c) if t.sort == 'I' else z3.Q(c.numerator, c.denominator)) * e)
            if a[0] != 0: xs.append(z3.IntVal(a[0]) if t.sort == 'I' else z3.Q(Fraction(a[0]).numerator, Fraction(a[0]).denominator))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if o == 'mul':
            self.nl = True
            if self.abs: return self.f('mul%d' % len(a), [x.sort for x in a], t.sort)(*[m[x] for x in a])
            return z3.Product([m[x] for x in a])
        if o == 'div':
            self.nl = True
            if self.abs: return self.f('div', ['R', 'R'], 'R')(m[a[0]], m[a[1]])
            return m[a[0]] / m[a[1]]
        if o == 'idiv':
            x, y = m[a[0]], m[a[1]]
            if isc(a[1]) and cv(a[1]) > 0: return z3.If(x >= 0, x / y, -((-x) / y))
            ax = z3.If(x >= 0, x, -x); ay = z3.If(y >= 0, y, -y)
            return z3.If((x >= 0) == (y > 0), ax / ay, -(ax / ay))
        if o == 'imod':
            x, y = m[a[0]], m[a[1]]
            if isc(a[1]) and cv(a[1]) > 0: return z3.If(x >= 0, x % y, -((-x) % y))
            ax = z3.If(x >= 0, x, -x); ay = z3.If(y >= 0, y, -y)
            return z3.If(x >= 0, ax % ay, -(ax % ay))
        if o == 'toreal': return z3.ToReal(m[a[0]])
        if o == 'toint':
            x = m[a[0]]; return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if o == 'ite': return z3.If(m[a[0]], m[a[1]], m[a[2]])
        if o == 'and': return z3.And([m[x] for x in a])
        if o == 'or': return z3.Or([m[x] for x in a])
        if o == 'not': return z3.Not(m[a[0]])
        if o == 'ge0': return m[a[0]] >= 0
        if o == 'gt0': return m[a[0]] > 0
        if o == 'eq0': return m[a[0]] == 0
        if o == 'iff': return m[a[0]] == m[a[1]]
        if o == 'sel':
            for x in a[1:]: self.idx.setdefault(x, set()).add(a[0])
            return self.f(a[0].args[0], [x.sort for x in a[1:]], t.sort)(*[m[x] for x in a[1:]])
        if o == 'uf':
            r = self.f(a[0], [x.sort for x in a[1:]], t.sort)(*[m[x] for x in a[1:]])
            ax = UFAX.get(a[0])
            if ax: self.side.append(ax(t))
            return r
        if o == 'red':
            self.reds[t] = 1
            return z3.Const('red#%d' % t.id, self.sort(t.sort))
        raise ValueError('z3 ' + o)

UFAX = {}   # name -> fn(term) -> axiom term
UFAX['sqrt'] = lambda t: implies(ge(t.args[1], R(0)), and_(ge(t, R(0)), eq(mul(t, t), t.args[1])))
def _mpi(op):
    def ax(t):
        x = t.args[1]; r = []
        if op == 'min': r.append(le(t, x))
        if op == 'max': r.append(ge(t, x))
        # a value all ranks agree on is its own minimum / maximum / conjunction
        if x.sort == 'I': r += [implies(eq(x, I(k)), eq(t, I(k))) for k in (0, 1)]
        return and_(*r)
    return ax
for _k in ('min', 'max', 'land', 'lor'): UFAX['MPI_' + _k] = _mpi(_k)
UFAX['exp'] = lambda t: gt(t, R(0))
UFAX['pow'] = lambda t: and_(implies(gt(t.args[1], R(0)), gt(t, R(0))), implies(ge(t.args[1], R(0)), ge(t, R(0))))

def _basic(t, w_ok=True):
    """local axioms of a reduction (no quantifier instances)"""
    kind, sc, ls = t.args
    out = []
    n = sc[0] if sc else None
    if kind == 'sum':
        out.append(implies(le(n, I(0)), eq(t, const(0, t.sort))))
        if t.sort == 'R' or t.sort == 'I':
            w = fresh('w', 'I'); b = inst(ls[0], w)
            out.append(or_(and_(le(I(0), w), lt(w, n), lt(b, const(0, b.sort))), ge(t, const(0, t.sort))))
            if t.sort == 'I':
                w = fresh('w', 'I'); b = inst(ls[0], w)
                out.append(or_(and_(le(I(0), w), lt(w, n), gt(b, I(1))), le(t, maxr(n, I(0)))))
    elif kind == 'first':
        mx = maxr(n, I(0))
        out += [le(I(0), t), le(t, mx), implies(lt(t, mx), inst(ls[0], t))]
    elif kind == 'last':
        out += [le(I(-1), t), or_(lt(t, n), eq(t, I(-1))), implies(ge(t, I(0)), inst(ls[0], t))]
        out += _ranked(t)
    elif kind in ('min', 'max'):
        cmp = le if kind == 'min' else ge
        out.append(cmp(t, sc[1]))
        w = fresh('w', 'I')
        out.append(or_(eq(t, sc[1]), and_(le(I(0), w), lt(w, n), eq(t, inst(ls[0], w)))))
    elif kind.startswith('fold'):
        k = int(kind[4:])
        out.append(implies(le(n, I(0)), eq(t, sc[1 + k])))
        g = gfold(t)
        if g is not None:
            d, w0, ps = g; cmp = le if d == 'min' else ge
            out.append(cmp(t, sc[1]))
            w = fresh('w', 'I')
            out.append(or_(eq(t, sc[1]), *[and_(le(I(0), w), lt(w, n), subst(C, {w0: w}), eq(t, subst(v, {w0: w}))) for C, v in ps]))
    elif kind.startswith('app:'):
        ax = APPAX.get(kind[4:])
        if ax: out += ax(t)
    return out
APPAX = {}
_rk = {}
def _ranked(t):
    """last i < n with c(i) and k == #{j < i: c(j)}: exists when 0 <= k < #{j < n: c(j)}"""
    kind, sc, ls = t.args
    if ls[0] not in _rk:
        w = fresh('rw', 'I'); b = inst(ls[0], w); cs = list(b.args) if b.op == 'and' else [b]; r = None
        for x in cs:
            if x.op != 'eq0' or x.args[0].sort != 'I': continue
            c0, d = TM._lin(x.args[0])
            for y, co in d.items():
                if y.op == 'red' and y.args[0] == 'sum' and y.args[1][0] is w and abs(co) == 1 and w not in y.args[2][0].fv:
                    rest = and_(*[z for z in cs if z is not x])
                    if inst(y.args[2][0], w) is not ite(rest, I(1), I(0)): continue
                    k = scale(-co, TM._mklin(c0, {z: q for z, q in d.items() if z is not y}, 'I'))
                    if w in k.fv: continue
                    r = (w, y.args[2][0], k)
        _rk[ls[0]] = r
    r = _rk[ls[0]]
    if r is None: return []
    w, lam, k = r
    v = fresh('w', 'I'); return [implies(and_(le(I(0), k), lt(k, TM.mkSum(sc[0], v, inst(lam, v)))), ge(t, I(0)))]
_gf = {}
def gfold(t):
    """guarded running minimum/maximum: acc := v(i) if C(i) and v(i) < acc (paths), else acc"""
    kind, sc, ls = t.args
    if len(sc) != 2 or t.sort == 'B': return None
    r = _gf.get(ls[0], 0)
    if r != 0: return r
    w = fresh('gw', 'I'); a = fresh('ga', t.sort)
    body = inst(ls[0], w, a)
    if body.op == 'tup': body = body.args[0]
    paths = []
    def go(x, lits):
        if len(paths) > 24: return
        if x.op == 'ite' and not (a not in x.fv and any(q(x, a) in lits for q in (lt, le, gt, ge))):
            c = x.args[0]; n = not_(c)
            go(x.args[1], lits + (list(c.args) if c.op == 'and' else [c])); go(x.args[2], lits + (list(n.args) if n.op == 'and' else [n]))
        else: paths.append((lits, x))
    go(body, [])
    res = None
    for d in ('min', 'max'):
        ok = len(paths) <= 24; ps = []
        for lits, v in paths:
            if v is a: continue
            if a in v.fv: ok = False; break
            key = (lt(v, a), le(v, a)) if d == 'min' else (gt(v, a), ge(v, a))
            if not any(l in key for l in lits): ok = False; break
            rest = [l for l in lits if a in l.fv and l not in key]
            if rest: ok = False; break
            ps.append((and_(*[l for l in lits if a not in l.fv]), v))
        if ok and ps: res = (d, w, ps); break
    _gf[ls[0]] = res
    return res
def _inst(t, k):
    kind, sc, ls = t.args
    if kind.startswith('fold'):
        d, w0, ps = gfold(t); cmp = le if d == 'min' else ge
        return and_(*[implies(and_(le(I(0), k), lt(k, sc[0]), subst(C, {w0: k})), cmp(t, subst(v, {w0: k}))) for C, v in ps])
    if kind == 'first':
        return implies(and_(le(I(0), k), lt(k, t)), not_(inst(ls[0], k)))
    if kind == 'last':
        return implies(and_(lt(t, k), le(I(0), k), lt(k, sc[0])), not_(inst(ls[0], k)))
    if kind in ('min', 'max'):
        cmp = le if kind == 'min' else ge
        return implies(and_(le(I(0), k), lt(k, sc[0])), cmp(t, inst(ls[0], k)))
    return None
def _step(a, b):
    """axiom when a has n = b.n + 1 and same lam"""
    kind, sc, ls = a.args
    n0 = b.args[1][0]; g = ge(n0, I(0))
    if kind == 'sum': return implies(g, eq(a, add(b, inst(ls[0], n0))))
    if kind == 'first':
        return implies(g, eq(a, ite(lt(b, n0), b, ite(inst(ls[0], n0), n0, add(n0, I(1))))))
    if kind == 'last': return implies(g, eq(a, ite(inst(ls[0], n0), n0, b)))
    if kind in ('min', 'max'):
        v = inst(ls[0], n0)
        return implies(g, eq(a, minr(b, v) if kind == 'min' else maxr(b, v)))
    if kind.startswith('fold'):
        k = int(kind[4:])
        accs = [red('fold%d' % j, b.args[1], ls, b.args[1][1 + j].sort) for j in range(len(sc) - 1)]
        _, bvs, body = ls[0].args
        return implies(g, eq(a, subst(body.args[k], dict(zip(bvs, [n0] + accs)))))
def _mono(a, b):
    """sums of one family over prefixes: (a shorter, b longer)"""
    na, nb = a.args[1][0], b.args[1][0]; lam = a.args[2][0]; out = []
    w = fresh('w', 'I'); neg_ = and_(le(na, w), lt(w, nb), lt(inst(lam, w), const(0, a.sort)))
    out.append(implies(and_(le(I(0), na), le(na, nb)), or_(neg_, ge(b, a))))
    w = fresh('w', 'I'); neg_ = and_(lt(na, w), lt(w, nb), lt(inst(lam, w), const(0, a.sort)))
    out.append(implies(and_(le(I(0), na), lt(na, nb)), or_(neg_, ge(b, add(a, inst(lam, na))))))
    return out
_SZ = {}
def _small(t):
    r = _SZ.get(t)
    if r is None: r = _SZ[t] = sum(1 for _ in subterms(t)) < 150
    return r
def _front(a, b):
    """b runs over the family of a shifted by one: peel the first element of a"""
    kind, sc, ls = a.args; w = fresh('w', 'I')
    try: p, q = inst(ls[0], add(w, I(1))), inst(b.args[2][0], w)
    except Exception: return []
    if p is not q or sc[0].sort != 'I': return []
    n = sc[0]; out = []
    if kind == 'sum':
        c = mkSum(sub(n, I(1)), w, q); out.append(implies(ge(n, I(1)), eq(a, add(inst(ls[0], I(0)), c))))
    elif kind in ('min', 'max'):
        f0 = inst(ls[0], I(0)); c = red(kind, (sub(n, I(1)), (minr if kind == 'min' else maxr)(sc[1], f0)), b.args[2], a.sort)
        out.append(implies(ge(n, I(1)), eq(a, c)))
    return out
def _reinit(a, b):
    """same family, other initial value"""
    kind = a.args[0]; i, j = a.args[1][1], b.args[1][1]; f = minr if kind == 'min' else maxr
    return implies(eq(a.args[1][0], b.args[1][0]), eq(f(a, j), f(b, i)))
def _cong(a, b):
    kind, s1, l1 = a.args; _, s2, l2 = b.args
    if len(s1) != len(s2) or len(l1) != len(l2) or a.sort != b.sort: return None
    for x, y in zip(s1, s2):
        if x.sort != y.sort: return None
    ante = [eq(x, y) for x, y in zip(s1, s2)]
    if FALSE in ante: return None
    for x, y in zip(l1, l2):
        if x is y: continue
        if kind.startswith('app:'):
            nx, ny = x.args[0], y.args[0]
            w = fresh('w', 'I'); p, q = inst(x, w), inst(y, w)
            if p.sort != q.sort: return None
            ante.append(eq(nx, ny))
            ante.append(implies(and_(le(I(0), w), lt(w, nx)), eq(p, q)))
        elif kind.startswith('fold'):
            if len(x.args[1]) != len(y.args[1]): return None
            w = fresh('w', 'I'); ac = [fresh('ac', v.sort) for v in x.args[1][1:]]
            if [v.sort for v in x.args[1]] != [v.sort for v in y.args[1]]: return None
            p, q = inst(x, w, *ac), inst(y, w, *ac)
            ante.append(implies(and_(le(I(0), w), lt(w, s1[0])), and_(*[eq(u, v) for u, v in zip(p.args, q.args)])))
        else:
            w = fresh('w', 'I'); p, q = inst(x, w), inst(y, w)
            ante.append(implies(and_(le(I(0), w), lt(w, s1[0])), eq(p, q)))
    return implies(and_(*ante), eq(a, b))

def _lincomb(atom_lin):
    """Sum_k c_k*sum_k over a common n: forall w Sum c_k b_k(w)==0 -> Sum c_k sum_k == 0 (also for >=, as two-sided equalities only)"""
    c, d = _lin_of(atom_lin)
    by = {}
    for k, v in d.items():
        if k.op == 'red' and k.args[0] == 'sum': by.setdefault(k.args[1][0], []).append((k, v))
    out = []
    for n, ks in by.items():
        if len(ks) < 2: continue
        w = fresh('w', 'I')
        tot = None; lhs = None
        for k, v in ks:
            e = scale(v, inst(k.args[2][0], w)); tot = e if tot is None else add(tot, e)
            l = scale(v, k); lhs = l if lhs is None else add(lhs, l)
        out.append(implies(implies(and_(le(I(0), w), lt(w, n)), eq0(tot)), eq0(lhs)))
    return out
def _lin_of(t):
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    return 0, {t: 1}

class Result:
    def __init__(s, status, model=None, reason=''): s.status = status; s.model = model; s.reason = reason
    def __bool__(s): return s.status == 'proved'
    def __repr__(s): return 'Result(%s,%s)' % (s.status, s.reason)

def prove(hyps, goal, timeout=8000, rounds=3, insts=(), maxpairs=100):
    """hyps |- goal ?"""
    if goal is TRUE: STATS['syntactic'] += 1; return Result('proved', reason='syntactic')
    hs = []
    for h in hyps:
        if h is FALSE: STATS['syntactic'] += 1; return Result('proved', reason='vacuous-path')
        if h is TRUE: continue
        hs.extend(h.args if h.op == 'and' else [h])
    hset = set(hs)
    if goal in hset: STATS['syntactic'] += 1; return Result('proved', reason='syntactic')
    hset = set()
    t0 = time.time()
    try:
        info = {}; r = None; T1 = min(timeout, 4000)
        if len(hs) > 40:
            near = _near(hs, goal)
            if len(near) < 0.7 * len(hs) and _solve(near, goal, 1500, rounds, insts, maxpairs, True, {}, True, True): return Result('proved', reason='relevant hypotheses')
        g2 = _unify(hs, goal, rounds, insts, maxpairs)
        if g2 is not goal:
            if g2 is TRUE: return Result('proved', reason='equal arguments')
            goal = g2
        e = _elim(hs, goal) if any(x.op == 'red' for x in subterms(goal)) else None
        if e is not None and (e[1] is TRUE or FALSE in e[0] or _solve(_near(e[0], e[1]), e[1], 1500, rounds, insts, maxpairs, True, {}, True, True)): return Result('proved', reason='integers eliminated')
        if _forall(goal) and _split(*(e or (hs, goal)), rounds, insts, maxpairs): return Result('proved', reason='cases')
        if any(x.op == 'red' and x.args[0].startswith('app:') for x in subterms(goal)):   # first without comparing opaque applications with one another
            r = _solve(hs, goal, T1, rounds + 1, insts, maxpairs, True, info, True, True)
        r = r or _solve(hs, goal, T1, rounds + 1, insts, maxpairs, True, info, True)
        if not r and info.get('nl'):
            if _cases(hs, goal, rounds, insts, maxpairs): r = Result('proved')
            else: r = _solve(hs, goal, timeout, rounds + 1, insts, maxpairs, False, info, True)
        if not r and info.get('skipped'):
            r = _solve(hs, goal, T1, rounds, insts, maxpairs, True, info)
            if not r and info.get('nl'): r = _solve(hs, goal, timeout, rounds, insts, maxpairs, False, info)
    finally:
        STATS['queries'] += 1; STATS['time'] += time.time() - t0
    return r

def _elim(hs, goal):
    """integer symbols given by equations replaced by their values, reductions simplified again under their index ranges"""
    m = {}
    for h in hs:
        if h.op != 'eq0' or h.args[0].sort != 'I': continue
        t = TM.subst(h.args[0], m) if m else h.args[0]; c, d = TM._lin(t)
        ks = [x for x, k in d.items() if x.op == 'sym' and k in (1, -1) and not any(x in y.fv for y in d if y is not x)]
        if not ks: continue
        x = max(ks, key=lambda x: x.id); v = sub(x, t) if d[x] == 1 else add(x, t)
        m = {a: TM.subst(b, {x: v}) for a, b in m.items()}; m[x] = v
    if not m: return None
    memo = {}
    def f(t): return TM.relam(TM.subst(t, m), memo)
    g = f(goal); hs2 = []
    for h in hs:
        h = f(h)
        if h is TRUE: continue
        hs2 += list(h.args) if h.op == 'and' else [h]
    return (hs2, g) if g is not goal else None
def _near(hs, goal, hops=1):
    """hypotheses that share a symbol with the goal (directly, or through one other hypothesis)"""
    S = set(x for x in goal.fv if x.op == 'sym')
    for _ in range(hops):
        n = set(S)
        for h in hs:
            f = [x for x in h.fv if x.op == 'sym']
            if len(f) <= 4 and any(x in S for x in f): n.update(f)
        S = n
    return [h for h in hs if all(x in S for x in h.fv if x.op == 'sym')]
_uni = {}
def _unify(hs, goal, rounds, insts, maxpairs, depth=0):
    """opaque applications whose argument arrays are provably equal are the same value"""
    if depth > 3: return goal
    apps = [x for x in subterms(goal) if x.op == 'red' and x.args[0].startswith('app:') and not any(v.op == 'bv' for v in x.fv)]
    if len(apps) < 2: return goal
    apps.sort(key=lambda x: (x.h, x.id)); reps = {}; m = {}; hk = tuple(h.id for h in hs)
    for a in apps:
        k = (a.args[0], a.sort, a.args[1], len(a.args[2]))
        for b in reps.setdefault(k, []):
            if all(_lameq(hs, hk, x, y, rounds, insts, maxpairs, depth) for x, y in zip(a.args[2], b.args[2])): m[a] = b; break
        else: reps[k].append(a)
    return _repl(goal, m, {}) if m else goal
def _lameq(hs, hk, x, y, rounds, insts, maxpairs, depth):
    if x is y: return True
    if x.op != 'lam' or y.op != 'lam' or x.args[0] is not y.args[0] or x.args[0] is None: return False
    key = (x, y, hk)
    if key in _uni: return _uni[key]
    w = fresh('w', 'I'); n = x.args[0]; p, q = inst(x, w), inst(y, w); r = False
    if p.sort == q.sort:
        h = hs + [le(I(0), w), lt(w, n)]; g = _unify(h, eq(p, q), rounds, insts, maxpairs, depth + 1)
        r = g is TRUE or bool(_solve(h, g, 3000, rounds, insts, maxpairs, True, {}, True, True)) or _cases(h, g, rounds, insts, maxpairs)
    _uni[key] = r
    return r
def _forall(g):
    """(n, lam of the negated body) when g says that no i < n has it"""
    if g.op != 'ge0': return None
    c, d = TM._lin(g.args[0])
    if c != 0 or len(d) != 2: return None
    for t, k in d.items():
        if k == 1 and t.op == 'red' and t.args[0] == 'first':
            n = t.args[1][0]
            if g.args[0] is sub(t, maxr(n, I(0))): return n, t.args[2][0]
    return None
def _intro(hs, g):
    """goals without leading conjunction, disjunction and universal quantifier"""
    if g.op == 'and':
        for x in g.args: yield from _intro(hs, x)
    elif g.op == 'or' and any(x.op == 'and' or _forall(x) for x in g.args):
        x = [y for y in g.args if y.op == 'and' or _forall(y)][0]
        yield from _intro(hs + [not_(y) for y in g.args if y is not x], x)
    else:
        q = _forall(g)
        if q is None: yield hs, g
        else:
            w = fresh('w', 'I'); yield from _intro(hs + [le(I(0), w), lt(w, q[0])], not_(inst(q[1], w)))
def _repl(t, m, memo):
    r = m.get(t)
    if r is not None: return r
    if t in memo: return memo[t]
    if t.op in ('and', 'or', 'not', 'ite', 'iff', 'lin', 'mul', 'div', 'eq0', 'ge0', 'gt0', 'toreal', 'uf'): r = TM.rebuild(t, lambda x: _repl(x, m, memo))
    else: r = t
    memo[t] = r
    return r
def _conds(t, seen, out):
    if t in seen: return
    seen.add(t)
    if t.op == 'ite':
        c = t.args[0]
        for a in (c.args if c.op in ('and', 'or') else (c,)):
            a = a.args[0] if a.op == 'not' else a
            if a not in out and len(out) < 40 and a.op in ('eq0', 'ge0', 'gt0', 'sym', 'sel'): out.append(a)
    if t.op in ('and', 'or', 'not', 'ite', 'iff', 'lin', 'mul', 'div', 'eq0', 'ge0', 'gt0', 'toreal'):
        for k in kids(t): _conds(k, seen, out)
_dp = {}
def _deep(t):
    """choices inside the bodies of reductions that do not depend on the reduction's index"""
    if t in _dp: return _dp[t]
    r = []
    for x in subterms(t):
        if x.op == 'lam':
            for y in subterms(x.args[2]):
                if y.op == 'ite':
                    c = y.args[0]
                    for a in (c.args if c.op in ('and', 'or') else (c,)):
                        a = a.args[0] if a.op == 'not' else a
                        if a not in r and len(r) < 12 and a.op in ('eq0', 'ge0', 'gt0') and not _bvset(a): r.append(a)
    _dp[t] = r
    return r
def _replall(t, old, new):
    """replacement everywhere, under binders too"""
    memo = {}; need = old.fv
    def go(t):
        if t is old: return new
        if not need <= t.fv: return t
        r = memo.get(t)
        if r is None:
            if t.op == 'lam':
                n, bvs, body = t.args; fr = tuple(fresh('b', b.sort) for b in bvs)
                r = TM.mk_lam(None if n is None else go(n), fr, go(TM.subst(body, dict(zip(bvs, fr)))))
            elif t.op in ('c', 'sym', 'bv'): r = t
            else: r = TM.rebuild(t, go)
            memo[t] = r
        return r
    return go(t)
def _assume(g, lit, val):
    """g under a literal; an equality with an introduced index is substituted"""
    g = _replall(g, lit, TRUE if val else FALSE); nl = not_(lit)
    if nl.op != 'not': g = _replall(g, nl, FALSE if val else TRUE)
    if val and lit.op == 'eq0' and lit.args[0].sort == 'I':
        c, d = TM._lin(lit.args[0])
        for x, k in d.items():
            if x.op == 'sym' and k in (1, -1) and x.args[0].startswith('w!'): return {x: sub(x, lit.args[0]) if k == 1 else add(x, lit.args[0])}, g
    return None, g
def _undo(hs, lits):
    """hypotheses simplified by the literals assumed; None when they contradict one another"""
    keep = set(c if v else not_(c) for c, v in lits); r = []
    for h in hs:
        if h not in keep:
            for c, v in lits: h = _assume1(h, c, v)
        if h is TRUE: continue
        if h is FALSE: return None
        r += list(h.args) if h.op == 'and' else [h]
    return r
def _assume1(g, lit, val):
    g = _replall(g, lit, TRUE if val else FALSE); nl = not_(lit)
    return _replall(g, nl, FALSE if val else TRUE) if nl.op != 'not' else g
def _split(hs, goal, rounds, insts, maxpairs):
    """goals that quantify over indexes with choices under reductions: case analysis on the choices first"""
    left = [160]; dl = time.time() + 30
    def go(hs, g, depth, lits=()):
        if g is TRUE: return True
        left[0] -= 1
        if left[0] < 0 or time.time() > dl: return False
        cs = list(_deep(g)); _conds(g, set(), cs)
        cs = [c for c in cs if not _bvset(c)]
        if not cs or depth > 12:
            info = {}; hs = _undo(hs, lits)
            if hs is None: return True
            near = _near(hs, g)
            if len(near) < 0.7 * len(hs) and _solve(near, g, 1500, rounds + 1, insts, maxpairs, True, {}, True, True): return True
            return bool(_solve(hs, g, 2000, rounds + 1, insts, maxpairs, True, info, True, True) or info.get('nl') and _solve(hs, g, 3000, rounds + 1, insts, maxpairs, False, info, True, True))
        c = cs[0]
        for val in (True, False):
            lit = c if val else not_(c)
            if not_(lit) in hs: continue
            m, g2 = _assume(g, c, val); h2 = hs + [lit]
            if m: g2 = TM.subst(g2, m); h2 = [TM.subst(h, m) for h in h2]
            if FALSE in h2: continue
            if not go(h2, g2, depth + 1, lits + ((c, val),)): return False
        return True
    parts = list(_intro(list(hs), goal))
    if not any(_deep(g) for h, g in parts) or len(parts) > 6: return False
    for h, g in parts:
        if not go(h, g, 0): return False
    return True
def _cases(hs, goal, rounds, insts, maxpairs, budget=96):
    """case analysis over the choices in the goal"""
    left = [budget]; dl = time.time() + 40
    def go(hs, g, depth):
        if g is TRUE: return True
        left[0] -= 1
        if left[0] < 0 or time.time() > dl: return False
        cs = []; _conds(g, set(), cs)
        if not cs or depth > 7:
            info = {}
            return bool(_solve(hs, g, 2000, rounds + 1, insts, maxpairs, True, info, True, True) or info.get('nl') and _solve(hs, g, 4000, rounds + 1, insts, maxpairs, False, info, True, True))
        c = cs[0]
        for lit, m in ((c, {c: TRUE}), (not_(c), {c: FALSE})):
            if lit in hs and False: continue
            if not_(lit) in hs: continue
            if not go(hs + [lit], _repl(g, m, {}), depth + 1): return False
        return True
    n = 0
    for h, g in _intro(list(hs), goal):
        n += 1
        if not go(h, g, 0): return False
    return n > 0
def _solve(hs, goal, timeout, rounds, insts, maxpairs, abs_, info, rel=False, noapp=False):
    tr = Tr(abs_); tr.rel = rel; tr.noapp = noapp; tr.skipped = 0
    try: return _solve2(hs, goal, timeout, rounds, insts, maxpairs, tr)
    finally: info['nl'] = tr.nl; info['skipped'] = tr.skipped
_ra = {}
def relarr(t):
    """arrays read by a reduction body exactly at its index; None when it reads at computed positions"""
    r = _ra.get(t.args[2], 0)
    if r != 0: return r
    w = fresh('rw', 'I'); r = set()
    for l in t.args[2]:
        nb = l.args[1] if l.op == 'lam' else ()
        body = inst(l, *([w] + [fresh('rx', b.sort) for b in nb[1:]])) if l.op == 'lam' else sel(l, w)
        for y in subterms(body):
            if y.op == 'sel':
                if w in y.args[1:]: r.add(y.args[0])
                elif any(w in q.fv for q in y.args[1:]) or any(v.op == 'bv' for v in y.fv): r = None; break
        if r is None: break
    if not r: r = None
    _ra[t.args[2]] = r
    return r
def _solve2(hs, goal, timeout, rounds, insts, maxpairs, tr):
    s = z3.Solver(); s.set('timeout', timeout); s.set('random_seed', 1)
    ng = not_(goal)
    todo = list(hs) + [ng]
    done_reds = {}; done_pairs = set(); done_inst = set(); npairs = 0
    for x in subterms(ng):
        if x.op in ('eq0', 'ge0', 'gt0') and not x.args[0].fv & _bvset(x): todo += _lincomb(x.args[0])
    dl = time.time() + (4 if tr.noapp else 60)
    for rd in range(rounds + 1):
        seen_forms = todo; todo = []
        for f in seen_forms:
            if time.time() > dl: return Result('unknown', reason='instantiation time')
            if f is TRUE: continue
            if f.fv and any(v.op == 'bv' for v in f.fv): continue
            s.add(tr(f))
        sd, tr.side = tr.side, []
        todo += sd
        # quick check each round: unsat already?
        if rd >= 1 or not tr.reds:
            s.set('timeout', timeout if (rd == rounds or not tr.reds) else max(1000, timeout // 4))
            r = s.check()
            if r == z3.unsat: return Result('proved')
            if not tr.reds and not todo:
                if r == z3.sat: return Result('refuted', (s.model(), tr))
                return Result('unknown', reason=s.reason_unknown())
        if rd == rounds: break
        reds = list(tr.reds)
        for t in reds:
            if t in done_reds: continue
            todo += _basic(t)
        # step axioms and congruence
        greds = {x for x in subterms(ng) if x.op == 'red'}
        prs = [(a, b) for i, a in enumerate(reds) for b in reds[:i] if a.args[0] == b.args[0] and (a, b) not in done_pairs and not (tr.noapp and a.args[0].startswith('app:'))]
        prs.sort(key=lambda p: -((p[0] in greds) + (p[1] in greds)))
        if True:
            for a, b in prs:
                done_pairs.add((a, b))
                if a.args[2] == b.args[2] and a.args[1] and b.args[1] and a.args[1][1:] == b.args[1][1:] and not a.args[0].startswith('app:'):
                    d = sub(a.args[1][0], b.args[1][0])
                    if isc(d) and cv(d) == 1: todo.append(_step(a, b))
                    elif isc(d) and cv(d) == -1: todo.append(_step(b, a))
                    elif a.args[0] == 'sum': todo += _mono(a, b); todo += _mono(b, a)
                if a.args[0] in ('sum', 'min', 'max') and a.args[2] != b.args[2] and rd < 2 and _small(a) and _small(b): todo += _front(a, b) + _front(b, a)
                if a.args[0] in ('min', 'max') and a.args[2] == b.args[2] and a.args[1][1] is not b.args[1][1]: todo.append(_reinit(a, b))
                npairs += 1
                if npairs > maxpairs: continue
                c = _cong(a, b)
                if c is not None: todo.append(c)
        idx = list(tr.idx)
        for t in reds:
            if t.args[0] in ('first', 'last'): idx.append(t); idx.append(add(t, I(1)))
            if t.args[1] and t.args[1][0].sort == 'I' and not isc(t.args[1][0]): idx.append(t.args[1][0])
        idx += list(insts)
        for sfx in list(tr.m):
            if sfx.op == 'sym' and sfx.sort == 'I' and '!' in sfx.args[0] and sfx.args[0].split('!')[0] in ('w', 'j', 't', 'k', 'i'): idx.append(sfx)
        for t in reds:
            if t.args[0] not in ('first', 'last', 'min', 'max') and not (t.args[0] == 'fold0' and gfold(t) is not None): continue
            ra = relarr(t) if tr.rel else None
            for k in idx:
                if k.sort != 'I' or (t, k) in done_inst or k is t: continue
                if ra is not None and not (tr.idx.get(k, EMPTY) & ra) and k not in insts: tr.skipped += 1; continue
                if len(done_inst) > (3000 if tr.rel else 600): break
                done_inst.add((t, k))
                todo.append(_inst(t, k))
        for t in reds: done_reds[t] = 1
        if not todo:
            r = s.check()
            if r == z3.unsat: return Result('proved')
            break
    s.set('timeout', timeout)
    r = s.check()
    if r == z3.unsat: return Result('proved')
    if r == z3.sat: return Result('refuted', (s.model(), tr))
    return Result('unknown', reason=s.reason_unknown())
def _bvset(x):
    return frozenset(v for v in x.fv if v.op == 'bv')
def satisfiable(hyps, timeout=8000):
    hs = []
    for h in hyps: hs.extend(h.args if h.op == 'and' else [h])
    if FALSE in hs: return False
    r = _solve([h for h in hs if h is not TRUE], FALSE, timeout, 1, (), 30, True, {}, True, True)
    if r: return False
    return r.status == 'refuted' or (r.status == 'unknown' and None)

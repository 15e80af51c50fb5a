"""Hash-consed term language: linear arithmetic normal form, lambdas, reductions.

Sorts: 'B' bool, 'I' mathematical integer, 'R' mathematical real, 'L' lambda/tuple,
       'A:R','A:I','A:B' uninterpreted base arrays.
"""
from fractions import Fraction
import math, sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'h', '__weakref__')
    def __repr__(s): return show(s)
    # arithmetic sugar -----------------------------------------------------
    def __add__(a, b): return add(a, lift(b, a))
    def __radd__(a, b): return add(lift(b, a), a)
    def __sub__(a, b): return sub(a, lift(b, a))
    def __rsub__(a, b): return sub(lift(b, a), a)
    def __mul__(a, b): return mul(a, lift(b, a))
    def __rmul__(a, b): return mul(lift(b, a), a)
    def __truediv__(a, b): return div(a, lift(b, a))
    def __rtruediv__(a, b): return div(lift(b, a), a)
    def __neg__(a): return neg(a)
    def __lt__(a, b): return lt(a, lift(b, a))
    def __le__(a, b): return le(a, lift(b, a))
    def __gt__(a, b): return lt(lift(b, a), a)
    def __ge__(a, b): return le(lift(b, a), a)
    def eq(a, b): return eq(a, lift(b, a))
    def ne(a, b): return not_(eq(a, lift(b, a)))
    def __and__(a, b): return and_(a, b)
    def __or__(a, b): return or_(a, b)
    def __invert__(a): return not_(a)
    def __bool__(s): raise TypeError('symbolic bool used concretely: %r' % (s,))

_tab = {}
_cnt = [0]
EMPTY = frozenset()

def _mk(op, args, sort, kids=None, fv=None, h=None):
    key = (op, sort, args)
    t = _tab.get(key)
    if t is not None: return t
    t = T.__new__(T)
    t.op = op; t.args = args; t.sort = sort
    _cnt[0] += 1
    t.id = _cnt[0]
    if fv is None:
        if kids is None: kids = [a for a in args if isinstance(a, T)]
        if not kids: fv = EMPTY
        elif len(kids) == 1: fv = kids[0].fv
        else:
            fv = kids[0].fv
            for k in kids[1:]:
                if k.fv is not fv and k.fv: fv = fv | k.fv
        hh = 0
        for k in kids:
            if k.h > hh: hh = k.h
        t.h = hh if h is None else h
    else:
        t.h = h or 0
    t.fv = fv
    _tab[key] = t
    return t
# NB: T has default identity hash/eq, so tuple keys containing T hash by identity.

def const(v, sort):
    if sort == 'B': v = bool(v)
    elif sort == 'I': v = int(v)
    else:
        v = Fraction(v)
        if CONC[0] and v.denominator.bit_length() > 6000: v = Fraction(float(v))
    key = ('c', sort, v)
    t = _tab.get(key)
    if t is None: t = _mk('c', (v,), sort)
    _tab[key] = t
    return t
def _mkc(v, sort): return const(v, sort)
TRUE = const(True, 'B'); FALSE = const(False, 'B')
def I(v): return v if isinstance(v, T) else const(v, 'I')
def R(v):
    if isinstance(v, T): return toreal(v) if v.sort == 'I' else v
    return const(Fraction(v), 'R')
def lift(v, like):
    if isinstance(v, T): return v
    if isinstance(v, bool): return const(v, 'B')
    if like.sort == 'R': return const(Fraction(v), 'R')
    if like.sort == 'B': return const(v, 'B')
    if isinstance(v, int): return const(v, 'I')
    return const(Fraction(v), 'R')
def isc(t): return t.op == 'c'
def cv(t): return t.args[0]

def sym(name, sort):
    key = ('sym', sort, (name,))
    t = _tab.get(key)
    if t is not None: return t
    t = T.__new__(T); t.op = 'sym'; t.args = (name,); t.sort = sort
    _cnt[0] += 1; t.id = _cnt[0]; t.h = 0; t.fv = frozenset((t,))
    _tab[key] = t
    return t
_fr = [0]
def fresh(name, sort):
    _fr[0] += 1
    return sym('%s!%d' % (name, _fr[0]), sort)
def nextid(): _fr[0] += 1; return _fr[0]
def asym(name, elem, k=1): return sym(name, ('A:' if k == 1 else 'A2:') + elem)
def _bv(height, pos, sort):
    key = ('bv', sort, (height, pos))
    t = _tab.get(key)
    if t is not None: return t
    t = T.__new__(T); t.op = 'bv'; t.args = (height, pos); t.sort = sort
    _cnt[0] += 1; t.id = _cnt[0]; t.h = 0; t.fv = frozenset((t,))
    _tab[key] = t
    return t

# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """-> (const, dict term->coef)"""
    if t.op == 'c': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    return 0, {t: 1}
def _mklin(c, d, sort):
    d = {k: v for k, v in d.items() if v != 0}
    if not d: return const(c, sort)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    items = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
    if sort == 'R':
        c = Fraction(c); items = tuple((k, Fraction(v)) for k, v in items)
    else:
        c = int(c); items = tuple((k, int(v)) for k, v in items)
    return _mk('lin', (c, items), sort, kids=[k for k, _ in items])
def _chk(a, b):
    if a.sort != b.sort:
        if a.sort == 'I' and b.sort == 'R': return toreal(a), b
        if a.sort == 'R' and b.sort == 'I': return a, toreal(b)
        raise TypeError('sort mismatch %s %s: %s vs %s' % (a.sort, b.sort, show(a)[:200], show(b)[:200]))
    return a, b
def add(a, b):
    a, b = _chk(a, b)
    if a.op == 'c' and a.args[0] == 0: return b
    if b.op == 'c' and b.args[0] == 0: return a
    c1, d1 = _lin(a); c2, d2 = _lin(b)
    d = d1
    for k, v in d2.items(): d[k] = d.get(k, 0) + v
    return _mklin(c1 + c2, d, a.sort)
def scale(k, a):
    if k == 1: return a
    if k == 0: return const(0, a.sort)
    c, d = _lin(a)
    return _mklin(c * k, {x: v * k for x, v in d.items()}, a.sort)
def neg(a): return scale(-1, a)
def sub(a, b):
    a, b = _chk(a, b)
    return add(a, neg(b))
def mul(a, b):
    a, b = _chk(a, b)
    if a.op == 'c': return scale(a.args[0], b)
    if b.op == 'c': return scale(b.args[0], a)
    # pull single-term coefficients out
    ka = kb = 1
    if a.op == 'lin' and a.args[0] == 0 and len(a.args[1]) == 1: a, ka = a.args[1][0]
    if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) == 1: b, kb = b.args[1][0]
    # ite with constant 0/1 branches: keep as is
    fa = list(a.args) if a.op == 'mul' else [a]
    fb = list(b.args) if b.op == 'mul' else [b]
    fs = tuple(sorted(fa + fb, key=lambda t: t.id))
    return scale(ka * kb, _mk('mul', fs, a.sort))
def div(a, b):
    a, b = R(a), R(b)
    if b.op == 'c' and b.args[0] != 0: return scale(Fraction(1) / b.args[0], a)
    if b.op == 'c': return _mk('div', (a, b), 'R')
    if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) == 1:
        t, k = b.args[1][0]
        return scale(Fraction(1) / k, div(a, t))
    inv = _mk('div', (const(1, 'R'), b), 'R')
    return mul(a, inv)
def toreal(a):
    if a.sort == 'R': return a
    if a.sort == 'B': return ite(a, const(1, 'R'), const(0, 'R'))
    if a.op == 'c': return const(a.args[0], 'R')
    if a.op == 'lin':
        d = {}
        for k, v in a.args[1]:
            tk = toreal(k); c2, d2 = _lin(tk)
            for kk, vv in d2.items(): d[kk] = d.get(kk, 0) + v * vv
        return _mklin(a.args[0], d, 'R')
    if a.op == 'ite': return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return _mk('toreal', (a,), 'R')
def toint(a):
    if a.sort == 'I': return a
    if a.op == 'c': return const(int(a.args[0]), 'I')  # trunc
    if a.op == 'toreal': return a.args[0]
    return _mk('toint', (a,), 'I')
def idiv(a, b):
    if b.op == 'c' and b.args[0] == 1: return a
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return const(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q, 'I')
    if b.op == 'c':
        c, d = _lin(a); k = b.args[0]
        if c % k == 0 and all(v % k == 0 for v in d.values()):
            return _mklin(c // k, {x: v // k for x, v in d.items()}, 'I')
    if a is b: return const(1, 'I')
    if a.op == 'mul' and b in a.args:
        r = list(a.args); r.remove(b)
        return r[0] if len(r) == 1 else _mk('mul', tuple(r), 'I')
    return _mk('idiv', (a, b), 'I')
def imod(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return const(int(math.fmod(a.args[0], b.args[0])), 'I')
    if b.op == 'c':
        c, d = _lin(a); k = b.args[0]
        if k != 0 and c % k == 0 and all(v % k == 0 for v in d.values()): return const(0, 'I')
    return _mk('imod', (a, b), 'I')

# ---------------------------------------------------------------- booleans
def not_(a):
    if a.op == 'c': return const(not a.args[0], 'B')
    if a.op == 'not': return a.args[0]
    if a.op == 'ge0':
        x = a.args[0]
        return gt0(neg(x))
    if a.op == 'gt0': return ge0(neg(a.args[0]))
    return _mk('not', (a,), 'B')
def _nary(op, xs, unit, zero):
    out = {}
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is unit: continue
        if x is zero: return zero
        if x.op == op: st.extend(x.args[::-1]); continue
        out[x] = 1
    for x in list(out):
        n = not_(x)
        if n in out: return zero
    if not out: return unit
    if len(out) == 1: return next(iter(out))
    dual = 'and' if op == 'or' else 'or'; ch = False; r = []
    for x in out:
        if x.op == dual and len(x.args) < 12:
            if any(y in out for y in x.args): ch = True; continue             # a | (a & b)
            k = [y for y in x.args if not_(y) not in out]                    # a | (!a & b)
            if len(k) < len(x.args): ch = True; x = (and_ if dual == 'and' else or_)(*k)
        r.append(x)
    if ch: return _nary(op, r, unit, zero)
    return _mk(op, tuple(sorted(out, key=lambda t: t.id)), 'B')
def and_(*xs): return _nary('and', xs, TRUE, FALSE)
def or_(*xs): return _nary('or', xs, FALSE, TRUE)
def implies(a, b): return or_(not_(a), b)
def _norm(x):
    """scale lin so that leading coef is +-1 (R) or gcd 1 (I); returns (x', positive scale)"""
    c, d = _lin(x)
    if not d: return x
    if x.sort == 'R':
        k = abs(min(d.items(), key=lambda kv: kv[0].id)[1])
        if k != 1: return scale(Fraction(1) / k, x)
        return x
    g = 0
    for v in d.values(): g = math.gcd(g, v)
    return x if g == 1 else None if False else _gdiv(x, g)
def _gdiv(x, g): return (x, g)
def _push(f, x):
    """push a predicate into an ite with constant branches"""
    if x.op == 'ite':
        a, b = x.args[1], x.args[2]
        if a.op == 'c' or b.op == 'c': return ite(x.args[0], f(a), f(b))
    elif x.op == 'lin' and len(x.args[1]) == 1 and x.args[1][0][0].op == 'ite':
        t, k = x.args[1][0]
        a, b = t.args[1], t.args[2]
        if a.op == 'c' and b.op == 'c':
            c = const(x.args[0], x.sort)
            return ite(t.args[0], f(add(scale(k, a), c)), f(add(scale(k, b), c)))
    return None
def _ige0(c, d):
    g = 0
    for v in d.values(): g = math.gcd(g, v)
    if g > 1:
        c = c // g  # floor: sum(d/g) >= -c/g  <=> sum >= ceil(-c/g) = -floor(c/g)
        d = {k: v // g for k, v in d.items()}
    return c, d
def ge0(x):
    if x.op == 'c': return const(x.args[0] >= 0, 'B')
    p = _push(ge0, x)
    if p is not None: return p
    c, d = _lin(x)
    if x.sort == 'I':
        c, d = _ige0(c, d)
        return _mk('ge0', (_mklin(c, d, 'I'),), 'B')
    k = abs(min(d.items(), key=lambda kv: kv[0].id)[1])
    return _mk('ge0', (scale(Fraction(1) / k, x) if k != 1 else x,), 'B')
def gt0(x):
    if x.op == 'c': return const(x.args[0] > 0, 'B')
    if x.sort == 'I': return ge0(add(x, const(-1, 'I')))
    p = _push(gt0, x)
    if p is not None: return p
    c, d = _lin(x)
    k = abs(min(d.items(), key=lambda kv: kv[0].id)[1])
    return _mk('gt0', (scale(Fraction(1) / k, x) if k != 1 else x,), 'B')
def eq0(x):
    if x.op == 'c': return const(x.args[0] == 0, 'B')
    p = _push(eq0, x)
    if p is not None: return p
    c, d = _lin(x)
    lead = min(d.items(), key=lambda kv: kv[0].id)[1]
    if x.sort == 'R':
        return _mk('eq0', (scale(Fraction(1) / lead, x),), 'B')
    g = 0
    for v in d.values(): g = math.gcd(g, v)
    if c % g: return FALSE
    if lead < 0: g = -g
    return _mk('eq0', (_mklin(c // g, {k: v // g for k, v in d.items()}, 'I'),), 'B')
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a.op == 'c': return b if a.args[0] else not_(b)
        if b.op == 'c': return a if b.args[0] else not_(a)
        if not_(a) is b: return FALSE
        return _mk('iff', tuple(sorted((a, b), key=lambda t: t.id)), 'B')
    return eq0(sub(a, b))
def le(a, b): return ge0(sub(b, a))
def lt(a, b): return gt0(sub(b, a))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def _under(t, c, val, d):
    """nested choices of t, knowing the value of c"""
    if t.op != 'ite' or d == 0: return t
    k, x, y = t.args; k2 = _known(k, c, val)
    x2, y2 = _under(x, c, val, d - 1), _under(y, c, val, d - 1)
    return t if k2 is k and x2 is x and y2 is y else ite(k2, x2, y2)
def _known(k, c, val):
    if k is c: return val
    if k.op in ('and', 'or'):
        n = not_(c); r = [val if y is c else (FALSE if val is TRUE else TRUE) if y is n else y for y in k.args]
        if any(p is not q for p, q in zip(r, k.args)): return (and_ if k.op == 'and' else or_)(*r)
        return k
    if not_(k) is c: return FALSE if val is TRUE else TRUE
    return k
def ite(c, a, b):
    if isinstance(a, (int, float)) and not isinstance(a, bool): a = lift(a, b)
    if isinstance(b, (int, float)) and not isinstance(b, bool): b = lift(b, a)
    if c.op == 'c': return a if c.args[0] else b
    if a is b: return a
    if a.sort != b.sort: a, b = _chk(a, b)
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    elif a.op == 'ite' and not_(a.args[0]) is c: a = a.args[2]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    elif b.op == 'ite' and not_(b.args[0]) is c: b = b.args[1]
    if a.op == 'ite': a = _under(a, c, TRUE, 4)
    if b.op == 'ite': b = _under(b, c, FALSE, 4)
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        if a is c: return or_(c, b)
        if b is c: return and_(c, a)
    # ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
    if a.op == 'ite' and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b: return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a: return ite(and_(not_(c), b.args[0]), b.args[1], a)
    # canonical polarity: prefer ge0-form (real gt0(x) = not ge0(-x))
    if c.op == 'gt0' or c.op == 'ge0' and c.args[0].sort == 'I' and _lead(c.args[0]) < 0: return _mk('ite', (not_(c), b, a), a.sort)
    return _mk('ite', (c, a, b), a.sort)
def _lead(x):
    d = _lin(x)[1]
    return d[min(d, key=lambda k: k.id)]
def uf(name, args, sort):
    if CONC[0] and all(a.op == 'c' for a in args):
        r = conc_uf(name, [a.args[0] for a in args], sort)
        if r is not None: return r
    if name == 'sqrt' and args[0].op == 'c' and not CONC[0]:
        q = Fraction(args[0].args[0])
        if q >= 0 and math.isqrt(q.numerator) ** 2 == q.numerator and math.isqrt(q.denominator) ** 2 == q.denominator:
            return const(Fraction(math.isqrt(q.numerator), math.isqrt(q.denominator)), 'R')
    return _mk('uf', (name,) + tuple(args), sort, kids=list(args))
def conc_uf(name, vals, sort):
    f = UFS.get(name)
    if f is None:
        if sort == 'B' and not name.startswith('app:'): return None
        import zlib
        if sort == 'B': return const(zlib.crc32(repr((name, [str(v) for v in vals])).encode()) % 4 != 0, 'B')
        h = zlib.crc32(repr((name, [str(v) for v in vals])).encode())
        return const(Fraction(h % 64 - 24, 16), 'R') if sort == 'R' else const(h % 5, 'I')
    try: v = f(*[float(x) if isinstance(x, Fraction) else x for x in vals])
    except Exception: v = math.nan
    if sort == 'R':
        if v != v: return sym('nan', 'R')
        if v in (math.inf, -math.inf): return const(Fraction(10) ** 308 * (1 if v > 0 else -1), 'R')
    return const(v, sort)
def absr(x):
    if x.op == 'c': return const(abs(x.args[0]), x.sort)
    return ite(ge0(x), x, neg(x))
def minr(a, b): a, b = _chk(a, b); return ite(le(a, b), a, b)
def maxr(a, b): a, b = _chk(a, b); return ite(le(b, a), a, b)

# ---------------------------------------------------------------- lambdas
def mk_lam(n, syms, body):
    """n: length term or None;  syms: tuple of sym terms;  body: T ('tup' for several)"""
    if n is None and body.op == 'sel' and body.args[1:] == tuple(syms) and body.args[0].op == 'sym':
        return body.args[0]   # eta
    h = body.h + 1
    m = {}
    bvs = []
    for p, s in enumerate(syms):
        b = _bv(h, p, s.sort); m[s] = b; bvs.append(b)
    body2 = subst(body, m)
    bvs = tuple(bvs)
    fv = body2.fv - frozenset(bvs)
    if n is not None: fv = fv | n.fv
    return _mk('lam', (n, bvs, body2), 'L', fv=fv, h=max(h, n.h if n is not None else 0))
def tup(*xs): return _mk('tup', tuple(xs), 'L')
def inst(lam, *args):
    if lam.op in ('sym', 'carr'): return sel(lam, *args)
    n, bvs, body = lam.args
    return subst(body, dict(zip(bvs, args)))
def alam(f, name='j', sort='I'):
    """array as python function of one index -> lam"""
    j = fresh(name, sort)
    b = f(j)
    return mk_lam(None, (j,), b)
def sel(A, *idx):
    if A.op == 'carr':
        i = idx[0]; vs = A.args
        if isc(i):
            k = cv(i)
            return vs[k] if 0 <= k < len(vs) else (vs[0] if vs else const(0, 'R'))
        if not vs: return const(0, 'R')
        r = vs[-1]
        for k in range(len(vs) - 2, -1, -1): r = ite(eq(i, const(k, 'I')), vs[k], r)
        return r
    if A.op == 'sym': return _mk('sel', (A,) + tuple(idx), A.sort.split(':')[1])
    return inst(A, *idx)
def elem_sort(A):
    if A.op == 'sym': return A.sort.split(':')[1]
    if A.op == 'carr': return A.args[0].sort if A.args else 'R'
    return A.args[2].sort
def arr_ite(c, A, B):
    if A is B: return A
    if isc(c): return A if cv(c) else B
    return alamn(arity(A), lambda *j: ite(c, sel(A, *j), sel(B, *j)))
def arity(A): return (2 if A.sort.startswith('A2') else 1) if A.op == 'sym' else 1 if A.op == 'carr' else len(A.args[1])
def alamn(k, f):
    js = tuple(fresh('j', 'I') for _ in range(k))
    return mk_lam(None, js, f(*js))
def arr_store(A, i, v): return alam(lambda j: ite(eq(j, i), v, sel(A, j)))

# reductions: red(kind, scalars, lams)
EXPAND = [0]    # >0: reductions with constant length up to this bound are unfolded
CONC = [False]  # evaluate registered uninterpreted functions on constants
def _case(n):
    """bounded mode: a length that is a choice between constants"""
    if not EXPAND[0] or isc(n): return None
    t, k, c = n, 1, 0
    if n.op == 'lin' and len(n.args[1]) == 1: (t, k), c = n.args[1][0], n.args[0]
    if t.op != 'ite' or not _leaves(t): return None
    f = lambda x: add(scale(k, x), const(c, 'I'))
    return t.args[0], f(t.args[1]), f(t.args[2])
def _leaves(t): return isc(t) or (t.op == 'ite' and _leaves(t.args[1]) and _leaves(t.args[2])) or (t.op == 'lin' and len(t.args[1]) == 1 and _leaves(t.args[1][0][0]))
def _exp(n): return EXPAND[0] and isc(n) and cv(n) <= EXPAND[0]
def carr(vals, es='R'):
    vals = tuple(vals)
    if not vals: return alam(lambda j: const(0, es))
    return _mk('carr', vals, 'L', kids=list(vals))
def red(kind, scalars, lams, sort):
    if EXPAND[0]:
        if kind in ('min', 'max') and _exp(scalars[0]):
            r = scalars[1]
            for k in range(max(0, cv(scalars[0]))):
                v = inst(lams[0], const(k, 'I')); r = minr(r, v) if kind == 'min' else maxr(r, v)
            return r
        if kind.startswith('fold') and _exp(scalars[0]):
            acc = list(scalars[1:]); _, bvs, body = lams[0].args
            for k in range(max(0, cv(scalars[0]))):
                m = dict(zip(bvs, [const(k, 'I')] + acc)); acc = [subst(x, m) for x in body.args]
            return acc[int(kind[4:])]
        if kind.startswith('app:') and all(l.args[0] is not None and _exp(l.args[0]) for l in lams):
            xs = list(scalars); nm = kind
            for l in lams:
                k = cv(l.args[0]); nm += '#%d' % k
                xs += [inst(l, const(q, 'I')) for q in range(max(0, k))]
            return uf(nm, xs, sort)
    return _mk('red', (kind, tuple(scalars), tuple(lams)), sort, kids=list(scalars) + list(lams))
def Sum(n, f, sort='R'):
    i = fresh('i', 'I'); b = f(i)
    if not isinstance(b, T): b = lift(b, const(0, sort))
    return mkSum(n, i, b)
def mkSum(n, i, b):
    s = b.sort
    q = _case(n)
    if q: return ite(q[0], mkSum(q[1], i, b), mkSum(q[2], i, b))
    b = nonneg(b, i, n)
    if _exp(n):
        r = const(0, s)
        for k in range(max(0, cv(n))): r = add(r, subst(b, {i: const(k, 'I')}))
        return r
    if isc(n) and cv(n) <= 0: return const(0, s)
    if isc(b) and cv(b) == 0: return b
    if s == 'I' and isc(b) : return scale(cv(b), ite(ge0(n), n, const(0, 'I')))
    # pull constant coefficient
    if b.op == 'lin' and b.args[0] == 0 and len(b.args[1]) == 1:
        t, k = b.args[1][0]
        return scale(k, mkSum(n, i, t))
    return red('sum', (n,), (mk_lam(None, (i,), b),), s)
def First(n, f):
    """least i in [0,n) with f(i), else max(n,0)"""
    i = fresh('i', 'I'); return mkFirst(n, i, f(i))
def nonneg(b, i, n=None):
    """simplify comparisons of the non-negative integer i alone against constants (and against n: i < n)"""
    memo = {}; up = sub(sub(n, const(1, 'I')), i) if n is not None and not EXPAND[0] else None
    def go(x):
        if i not in x.fv: return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'ge0' and x.args[0].sort == 'I':
            c, d = _lin(x.args[0]); r = x
            if len(d) == 1 and i in d:
                k = d[i]
                if k > 0 and c >= 0: r = TRUE
                elif k < 0 and c < 0: r = FALSE
            if r is x and up is not None:
                if x.args[0] is up: r = TRUE
                else:
                    q = sub(x.args[0], up)
                    if isc(q) and cv(q) >= 0: r = TRUE
                    else:
                        q = add(x.args[0], up)
                        if isc(q) and cv(q) < 0: r = FALSE
        elif x.op == 'eq0' and x.args[0].sort == 'I':
            c, d = _lin(x.args[0]); r = x
            if len(d) == 1 and i in d and c * d[i] > 0: r = FALSE
        elif x.op in ('and', 'or', 'not', 'ite', 'iff', 'lin', 'mul', 'sel', 'eq0', 'ge0', 'gt0', 'div', 'uf'): r = rebuild(x, go)
        else: r = x
        memo[x] = r
        return r
    return go(b)
def mkFirst(n, i, b):
    q = _case(n)
    if q: return ite(q[0], mkFirst(q[1], i, b), mkFirst(q[2], i, b))
    b = nonneg(b, i, n)
    if b is not FALSE and not _exp(n) and subst(b, {i: const(0, 'I')}) is FALSE:
        j = fresh('i', 'I'); b2 = nonneg(subst(b, {i: add(j, const(1, 'I'))}), j)
        return ite(le(n, const(0, 'I')), const(0, 'I'), add(const(1, 'I'), mkFirst(sub(n, const(1, 'I')), j, b2))) if size(b2) <= size(b) else _mkFirst(n, i, b)
    if not _exp(n) and i in b.fv and any(x.op == 'eq0' and x.args[0] is i for x in subterms(b)):
        j = fresh('i', 'I'); b2 = nonneg(subst(b, {i: add(j, const(1, 'I'))}), j); b0 = subst(b, {i: const(0, 'I')})
        return ite(or_(le(n, const(0, 'I')), b0), const(0, 'I'), add(const(1, 'I'), mkFirst(sub(n, const(1, 'I')), j, b2)))
    return _mkFirst(n, i, b)
def size(t): return len(subterms(t))
def _mkFirst(n, i, b):
    if b is FALSE: return ite(ge0(n), n, const(0, 'I'))
    if b is TRUE: return const(0, 'I')
    if _exp(n):
        r = const(max(0, cv(n)), 'I')
        for k in range(cv(n) - 1, -1, -1): r = ite(subst(b, {i: const(k, 'I')}), const(k, 'I'), r)
        return r
    return red('first', (n,), (mk_lam(None, (i,), b),), 'I')
def Last(n, f):
    i = fresh('i', 'I'); return mkLast(n, i, f(i))
def mkLast(n, i, b):
    q = _case(n)
    if q: return ite(q[0], mkLast(q[1], i, b), mkLast(q[2], i, b))
    b = nonneg(b, i, n)
    if b is FALSE: return const(-1, 'I')
    if _exp(n):
        r = const(-1, 'I')
        for k in range(cv(n)): r = ite(subst(b, {i: const(k, 'I')}), const(k, 'I'), r)
        return r
    r = _lastpts(n, i, b)
    if r is not None: return r
    return red('last', (n,), (mk_lam(None, (i,), b),), 'I')
def _lastpts(n, i, b):
    """condition that holds at no more than one known point per disjunct"""
    pts = []
    for d in (b.args if b.op == 'or' else (b,)):
        cs = d.args if d.op == 'and' else (d,)
        t = None
        for e in cs:
            if e.op != 'eq0' or e.args[0].sort != 'I': continue
            c, q = _lin(e.args[0])
            k = q.get(i)
            if k not in (1, -1): continue
            t = sub(i, e.args[0]) if k == 1 else add(i, e.args[0])
            if i in t.fv: t = None; continue
            break
        if t is None or len(pts) == 3: return None
        g = and_(*[subst(e, {i: t}) for e in cs]); pts.append((and_(g, ge0(t), lt(t, n)), t))
    r = const(-1, 'I')
    def go(k, cur):
        if k == len(pts): return const(-1, 'I') if cur is None else cur
        c, t = pts[k]
        return ite(c, go(k + 1, t if cur is None else ite(lt(cur, t), t, cur)), go(k + 1, cur))
    return go(0, None)
def Exists(n, f): return lt(First(n, f), maxr(n, const(0, 'I')))
def Forall(n, f): return not_(Exists(n, lambda i: not_(f(i))))
def Count(n, f): return Sum(n, lambda i: ite(f(i), const(1, 'I'), const(0, 'I')), 'I')
def Fold(n, init, f):
    """single accumulator fold: f(acc,i)"""
    i = fresh('i', 'I'); a = fresh('a', init.sort)
    return mkFold(n, i, (init,), (a,), (f(a, i),))[0]
def mkFold(n, i, inits, accs, steps):
    q = _case(n)
    if q: return [ite(q[0], x, y) for x, y in zip(mkFold(q[1], i, inits, accs, steps), mkFold(q[2], i, inits, accs, steps))]
    steps = tuple(nonneg(x, i, n) for x in steps)
    m0 = dict(zip(accs, inits))
    if not any(i in x.fv for x in inits) and all(subst(x, m0) is y for x, y in zip(steps, inits)): return list(inits)
    if len(accs) == 1:
        a, st = accs[0], steps[0]
        if st is a: return [inits[0]]
        k = _keep(st, a)
        if k is not None and not _exp(n):
            c, v = k     # value v is assigned when c, else kept
            if i not in v.fv: return [ite(lt(mkFirst(n, i, c), maxr(n, const(0, 'I'))), v, inits[0])]
            l = mkLast(n, i, c); return [ite(ge(l, const(0, 'I')), subst(v, {i: l}), inits[0])]
        d = diff(st, a)
        if d is not None and a.sort in 'IR': return [add(inits[0], mkSum(n, i, d))]
        m = _minmax(st, a)
        if m is not None:
            kind, e = m
            return [red(kind, (n, inits[0]), (mk_lam(None, (i,), e),), a.sort)]
    lam = mk_lam(None, (i,) + tuple(accs), tup(*steps))
    return [red('fold%d' % k, (n,) + tuple(inits), (lam,), accs[k].sort) for k in range(len(accs))]
def _keep(st, a):
    """st == ite(c, v, a) up to nesting, c and v free of a"""
    def go(x):
        if x is a: return FALSE, None
        if a not in x.fv: return TRUE, x
        if x.op == 'ite' and a not in x.args[0].fv:
            p, q = go(x.args[1]), go(x.args[2])
            if p is None or q is None: return None
            c = or_(and_(x.args[0], p[0]), and_(not_(x.args[0]), q[0]))
            if p[1] is None: return c, q[1]
            if q[1] is None: return c, p[1]
            return c, ite(x.args[0], p[1], q[1])
        if a.sort == 'B' and x.op in ('and', 'or') and a in x.args:
            r = [y for y in x.args if y is not a]
            if any(a in y.fv for y in r): return None
            return (not_(and_(*r)), FALSE) if x.op == 'and' else (or_(*r), TRUE)
        return None
    r = go(st)
    return None if r is None or r[1] is None else r
def _minmax(st, a):
    """st == min(a,e) or max(a,e) with e free of a?"""
    if st.op != 'ite': return None
    c, x, y = st.args
    if x is a: e, c2 = y, not_(c)
    elif y is a: e, c2 = x, c
    else: return None
    if a in e.fv: return None
    # c2: condition under which e is taken
    if c2 is lt(e, a) or c2 is le(e, a): return 'min', e
    if c2 is gt(e, a) or c2 is ge(e, a): return 'max', e
    return None
def Min(n, init, f): return Fold(n, init, lambda a, i: ite(lt(f(i), a), f(i), a))
def Max(n, init, f): return Fold(n, init, lambda a, i: ite(gt(f(i), a), f(i), a))
def diff(f, v):
    """f - v free of v, pushing through ite; None if impossible"""
    if v not in f.fv: return None
    if f is v: return const(0, v.sort)
    if f.op == 'ite':
        if v in f.args[0].fv: return None
        a = diff(f.args[1], v); b = diff(f.args[2], v)
        if a is None or b is None: return None
        return ite(f.args[0], a, b)
    if f.op in ('lin',):
        c, d = _lin(f)
        if d.get(v) == 1:
            d = dict(d); del d[v]
            r = _mklin(c, d, v.sort)
            return None if v in r.fv else r
        # lin with ite(c, v+.., v+..) inside coefficient 1
        for k, cc in d.items():
            if cc == 1 and k.op == 'ite' and v in k.fv:
                dd = diff(k, v)
                if dd is None: return None
                d2 = dict(d); del d2[k]
                r = _mklin(c, d2, v.sort)
                if v in r.fv: return None
                return add(dd, r)
    return None
def App(name, scalars, arrs, sort):
    """uninterpreted, extensional: arrs = [(len, python fn)]"""
    ls = []
    for n, f in arrs:
        i = fresh('i', 'I'); b = f(i); ls.append(mk_lam(n, (i,), nonneg(b, i, n) if not EXPAND[0] else b))
    return red('app:' + name, tuple(scalars), tuple(ls), sort)

# ---------------------------------------------------------------- substitution
def rebuild(t, f):
    """rebuild non-binder node with f applied to children, through smart constructors"""
    op = t.op; a = t.args
    if op == 'lin':
        c = a[0]; acc = {}
        for k, v in a[1]:
            nk = f(k); c2, d2 = _lin(nk)
            c = c + v * c2
            for kk, vv in d2.items(): acc[kk] = acc.get(kk, 0) + v * vv
        return _mklin(c, acc, t.sort)
    if op == 'mul':
        r = f(a[0])
        for x in a[1:]: r = mul(r, f(x))
        return r
    if op == 'div': return div(f(a[0]), f(a[1]))
    if op == 'idiv': return idiv(f(a[0]), f(a[1]))
    if op == 'imod': return imod(f(a[0]), f(a[1]))
    if op == 'toreal': return toreal(f(a[0]))
    if op == 'toint': return toint(f(a[0]))
    if op == 'ite':
        c = f(a[0])
        if c is TRUE: return f(a[1])
        if c is FALSE: return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == 'and': return and_(*[f(x) for x in a])
    if op == 'or': return or_(*[f(x) for x in a])
    if op == 'not': return not_(f(a[0]))
    if op == 'ge0': return ge0(f(a[0]))
    if op == 'gt0': return gt0(f(a[0]))
    if op == 'eq0': return eq0(f(a[0]))
    if op == 'iff': return eq(f(a[0]), f(a[1]))
    if op == 'uf': return uf(a[0], [f(x) for x in a[1:]], t.sort)
    if op == 'sel': return sel(f(a[0]), *[f(x) for x in a[1:]])
    if op == 'tup': return tup(*[f(x) for x in a])
    if op == 'carr': return carr([f(x) for x in a])
    if op == 'red':
        kind, sc, ls = a
        sc = tuple(f(x) for x in sc); ls = tuple(f(x) for x in ls)
        if kind == 'sum':
            i = fresh('i', 'I')
            return mkSum(sc[0], i, inst(ls[0], i))
        if kind == 'first':
            i = fresh('i', 'I'); return mkFirst(sc[0], i, inst(ls[0], i))
        if kind == 'last':
            i = fresh('i', 'I'); return mkLast(sc[0], i, inst(ls[0], i))
        return red(kind, sc, ls, t.sort)
    raise ValueError(op)
def subst(t, m):
    if not m: return t
    keys = frozenset(m)
    memo = {}
    def go(t):
        if not (t.fv & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t in m: r = m[t]
        elif t.op == 'lam':
            n, bvs, body = t.args
            fr = tuple(fresh('b', b.sort) for b in bvs)
            b2 = subst(body, dict(zip(bvs, fr)))
            b2 = go(b2)
            r = mk_lam(None if n is None else go(n), fr, b2)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)
def relam(t, memo):
    """bodies of reductions simplified again under the range of their index"""
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'lam':
        n, bvs, body = t.args; fr = tuple(fresh('b', b.sort) for b in bvs); b2 = relam(subst(body, dict(zip(bvs, fr))), memo)
        if n is not None: n = relam(n, memo)
        if n is not None and len(fr) == 1: b2 = nonneg(b2, fr[0], n)
        r = mk_lam(n, fr, b2)
    elif not kids(t): r = t
    else: r = rebuild(t, lambda x: relam(x, memo))
    memo[t] = r
    return r
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for a in kids(x): st.append(a)
    return seen
def kids(x):
    if x.op == 'lin': return [k for k, _ in x.args[1]]
    if x.op == 'red': return list(x.args[1]) + list(x.args[2])
    if x.op == 'lam': return ([x.args[0]] if x.args[0] is not None else []) + [x.args[2]]
    return [a for a in x.args if isinstance(a, T)]

# ---------------------------------------------------------------- printing
def show(t, d=6):
    if d < 0: return '..'
    o = t.op; a = t.args
    s = lambda x: show(x, d - 1)
    if o == 'c':
        v = a[0]
        if isinstance(v, Fraction) and v.denominator != 1: return repr(float(v))
        return str(v)
    if o == 'sym': return a[0]
    if o == 'bv': return 'b%d_%d' % a
    if o == 'lin':
        return '(' + ' + '.join(([str(float(a[0]) if isinstance(a[0], Fraction) else a[0])] if a[0] != 0 else []) + [('%s*' % (float(c) if isinstance(c, Fraction) else c) if c != 1 else '') + s(k) for k, c in a[1]]) + ')'
    if o == 'mul': return '*'.join(s(x) for x in a)
    if o == 'div': return '(%s/%s)' % (s(a[0]), s(a[1]))
    if o == 'ite': return 'ite(%s, %s, %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if o in ('ge0', 'gt0', 'eq0'): return '%s%s0' % (s(a[0]), {'ge0': '>=', 'gt0': '>', 'eq0': '=='}[o])
    if o in ('and', 'or'): return '(' + (' & ' if o == 'and' else ' | ').join(s(x) for x in a) + ')'
    if o == 'not': return '!' + s(a[0])
    if o == 'sel': return '%s[%s]' % (s(a[0]), ','.join(s(x) for x in a[1:]))
    if o == 'lam': return '(\\%s. %s)' % (','.join(s(b) for b in a[1]), s(a[2]))
    if o == 'red': return '%s(%s; %s)' % (a[0], ', '.join(s(x) for x in a[1]), ', '.join(s(x) for x in a[2]))
    if o == 'uf': return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))

# ---------------------------------------------------------------- concrete evaluation
class EvalError(Exception): pass
UFS = {}   # name -> python function for concrete evaluation
APPS = {}  # name -> python function(scalars, arrays)
def _cdiv(a, b):
    if b == 0: raise EvalError('idiv0')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q
def evalt(t, env):
    """env: dict sym T -> python value (number/bool) or callable for arrays (index tuple -> value)"""
    memo = {}
    def go(t, benv):
        if t.op == 'c':
            v = t.args[0]
            return float(v) if t.sort == 'R' else v
        hasb = benv and any(b in t.fv for b in benv)
        if not hasb:
            if t in memo: return memo[t]
        r = go2(t, benv)
        if not hasb: memo[t] = r
        return r
    def lamf(l, benv):
        if l.op in ('sym', 'carr'): return go(l, benv)
        n, bvs, body = l.args
        def f(*xs):
            e = dict(benv); e.update(zip(bvs, xs)); return go(body, e)
        return f
    def go2(t, benv):
        o = t.op; a = t.args
        if o == 'bv': return benv[t]
        if o == 'sym':
            if t not in env: raise EvalError('unbound ' + a[0])
            return env[t]
        if o == 'lin':
            r = float(a[0]) if t.sort == 'R' else a[0]
            for k, c in a[1]:
                v = go(k, benv)
                if t.sort == 'R': c = float(c)
                r = r + (v if c == 1 else -v if c == -1 else c * v)
            return r
        if o == 'mul':
            r = go(a[0], benv)
            for x in a[1:]: r = r * go(x, benv)
            return r
        if o == 'div':
            x, y = go(a[0], benv), go(a[1], benv)
            if y == 0:
                if x == 0 or x != x: return math.nan
                return math.copysign(math.inf, x) * math.copysign(1, y)
            return x / y
        if o == 'idiv': return _cdiv(go(a[0], benv), go(a[1], benv))
        if o == 'imod':
            x, y = go(a[0], benv), go(a[1], benv); return x - y * _cdiv(x, y)
        if o == 'toreal': return float(go(a[0], benv))
        if o == 'toint': return int(go(a[0], benv))
        if o == 'ite': return go(a[1], benv) if go(a[0], benv) else go(a[2], benv)
        if o == 'and': return all(go(x, benv) for x in a)
        if o == 'or': return any(go(x, benv) for x in a)
        if o == 'not': return not go(a[0], benv)
        if o == 'ge0': return go(a[0], benv) >= 0
        if o == 'gt0': return go(a[0], benv) > 0
        if o == 'eq0': return go(a[0], benv) == 0
        if o == 'iff': return go(a[0], benv) == go(a[1], benv)
        if o == 'sel':
            A = go(a[0], benv); return A(*[go(x, benv) for x in a[1:]])
        if o == 'lam': return lamf(t, benv)
        if o == 'carr':
            vs = [go(x, benv) for x in a]
            return lambda k: vs[k]
        if o == 'uf':
            f = UFS.get(a[0])
            if f is None: raise EvalError('uf ' + a[0])
            return f(*[go(x, benv) for x in a[1:]])
        if o == 'red':
            kind, sc, ls = a
            if kind == 'sum':
                n = go(sc[0], benv); f = lamf(ls[0], benv)
                r = 0.0 if t.sort == 'R' else 0
                for i in range(n): r = r + f(i)
                return r
            if kind == 'first':
                n = go(sc[0], benv); f = lamf(ls[0], benv)
                for i in range(n):
                    if f(i): return i
                return max(n, 0)
            if kind == 'last':
                n = go(sc[0], benv); f = lamf(ls[0], benv)
                for i in range(n - 1, -1, -1):
                    if f(i): return i
                return -1
            if kind in ('min', 'max'):
                n = go(sc[0], benv); r = go(sc[1], benv); f = lamf(ls[0], benv)
                for i in range(n):
                    v = f(i)
                    if (v < r) if kind == 'min' else (v > r): r = v
                return r
            if kind.startswith('fold'):
                k = int(kind[4:]); n = go(sc[0], benv); acc = [go(x, benv) for x in sc[1:]]
                _, bvs, body = ls[0].args
                for i in range(n):
                    e = dict(benv); e[bvs[0]] = i
                    for b, v in zip(bvs[1:], acc): e[b] = v
                    acc = [go(x, e) for x in body.args]
                return acc[k]
            if kind.startswith('app:'):
                f = APPS.get(kind[4:])
                if f is None: raise EvalError('app ' + kind)
                arrs = []
                for l in ls:
                    n = go(l.args[0], benv); g = lamf(l, benv)
                    arrs.append([g(i) for i in range(n)])
                return f([go(x, benv) for x in sc], arrs)
        raise EvalError('eval ' + o)
    return go(t, {})

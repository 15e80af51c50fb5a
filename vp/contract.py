"""Contract layer: shapes (preconditions on memory), executable specifications (postconditions over the whole reachable
state, i.e. exact frames), verification of bodies against specs, use of specs at call sites."""
import re, time, random, zlib
from fractions import Fraction
from . import terms as TM
from .terms import *
from . import sym as S
from .sym import *
from . import intrin, prove as PR, stl
from .prove import prove, satisfiable

REG = {}        # demangled function name -> Contract
IMPL = {'hiop::hiopVector': 'hiop::hiopVectorPar', 'hiop::hiopVectorInt': 'hiop::hiopVectorIntSeq',
        'hiop::hiopMatrixDense': 'hiop::hiopMatrixDenseRowMajor', 'hiop::hiopMatrix': 'hiop::hiopMatrixDenseRowMajor'}
SHAPE = {}      # class -> hook(env, block)
VIEW = {}       # class -> view class
IGNORE = {}     # class -> member names outside every contract (logs, timers, scratch)

class Contract:
    def __init__(s, name, spec, **kw):
        s.name = name; s.spec = spec; s.o = kw
        s.trusted = kw.get('trusted', False)
def contract(name, **kw):
    def d(f):
        for n in ([name] if isinstance(name, str) else name):
            REG[n] = Contract(n, f, **kw)
        return f
    return d
def sigtypes(dem):
    """parameter types of a demangled name"""
    d = 0; i = len(dem) - 1
    if dem.endswith(' const'): i -= 6
    if i < 0 or dem[i] != ')': return []
    j = i
    while True:
        if dem[j] == ')': d += 1
        if dem[j] == '(':
            d -= 1
            if d == 0: break
        j -= 1
    body = dem[j + 1:i]; out = []; d = 0; cur = ''
    for ch in body:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def fname(dem):
    return dem[:dem.index('(')] if '(' in dem else dem
def clsof(dem):
    f = fname(dem)
    return f.rsplit('::', 1)[0] if '::' in f else None
def basecls(ty):
    t = ty.replace(' const', '').replace('const ', '').strip()
    n = 0
    while t.endswith('&') or t.endswith('*'): t = t[:-1].strip(); n += 1
    return t, n

class Val:
    """value passed by reference"""
    def __init__(s, v): s.v = v
class Env:
    """symbolic initial world for one verification"""
    def __init__(s, ex, val=None, rng=None):
        s.ex = ex; s.val = val; s.rng = rng; ex.facts = []; ex.env = s
        s.names = {}; s.blocks = []; s.impl = dict(IMPL); s.hooks = {}; s.used = {}; s.dims = set()
    def sym(s, name, sort):
        if s.val is not None:
            v = s.val.get(name)
            if v is None and s.rng is not None: v = rnd(s.rng, sort, name); s.val[name] = v
            if v is not None: return const(v, sort)
        t = sym(name, sort); s.used[name] = t
        return t
    def fact(s, t):
        if t is not TRUE: s.ex.facts.append(t)
    def dim(s, *ns):
        for n in ns: s.dims |= {x for x in TM.subterms(I(n)) if x.op == 'sym'}
    def arr(s, name, n, sort):
        n = I(n); s.dim(n)
        if TM.EXPAND[0] and isc(n): return carr([s.sym('%s[%d]' % (name, k), sort) for k in range(max(0, cv(n)))], sort)
        A = asym(name, sort); s.used[name] = A
        return A
    def cls(s, c): return s.impl.get(c, c)
    def members(s, cls):
        r = None
        for m in s.ex.mods:
            mm = m.members(cls)
            if mm: 
                if r is None or len(mm) > len(r): r = mm; s._sz = m.class_size(cls)
        return r
    def vtname(s, cls):
        k = 'vtable for ' + cls
        for m in s.ex.mods:
            for g in m.gtxt:
                if g.startswith('_ZTV') and g not in s.ex.dem: 
                    pass
        mang = '_ZTVN' + ''.join('%d%s' % (len(p), p) for p in cls.split('::')) + 'E'
        return mang
    def obj(s, cls, name, **kw):
        cls = s.cls(cls)
        b = Block(name, 'obj', None, cls); b.env = s
        m = s.members(cls); b.members = m
        if m: b.size = s._sz
        b.ignore = {m[x][0] for x in IGNORE.get(cls, ()) if m and x in m}
        b.mkcell = lambda off, ty: s.mkcell(b, off, ty)
        b.over = {}
        s.blocks.append(b)
        h = s.hooks.get(name) or SHAPE.get(cls)
        if h: h(s, b, **kw)
        return b
    def darr(s, name, n, sort='R', stride=None):
        b = Block(name, 'arr', None, stride=stride or (8 if sort == 'R' else 4), length=I(n)); b.env = s
        b.lazy_cols[0] = (b.stride, s.arr(name, n, sort))
        s.blocks.append(b)
        return b
    def set(s, b, member, v):
        o, sz, _ = b.members[member]
        b.lazy_cells[o] = (sz, v)
    def mkcell(s, b, off, ty):
        cls = b.cls
        if off == 0 and b.members and '_vptr' in b.members and ty[0] == 'ptr':
            g = s.vtname(cls)
            for m in s.ex.mods:
                if g in m.gtxt:
                    gg = m.glob(g)
                    if gg is not None and gg[1] is not None: return mkptr(s.ex.gblock(g), 16)
            return mkptr(s.opaque_vt(cls), 16)
        mn = None; td = None
        if b.members:
            for k, (o, sz, t) in b.members.items():
                if o == off and k != '_vptr' and (t[0] != 'cls'): mn, td = k, t
        nm = '%s.%s' % (b.name, mn or '+%d' % off)
        f = b.over.get(mn)
        if f is not None: return f
        if ty[0] == 'ptr':
            h = s.hooks.get(nm)
            if h is not None: return h(s, nm)
            if td is None or td[0] != 'ptr': return None
            t = td[1]
            if t[0] == 'cls':
                if t[1].startswith('std::'): return None
                return mkptr(s.obj(t[1], nm))
            if t[0] == 'dbl': return mkptr(s.darr(nm, s.sym(nm + '.len', 'I')))
            if t[0] == 'int': return mkptr(s.darr(nm, s.sym(nm + '.len', 'I'), 'I', t[1] // 8))
            if t[0] in ('void', '?'):
                o = Block(nm, 'obj'); o.members = {}; o.over = {}; return mkptr(o)
            return None
        if td == ('bool',) or ty == ('i', 1): return s.sym(nm, 'B')
        return s.sym(nm, 'R' if ty[0] == 'f' else 'I')
    def opaque_vt(s, cls):
        b = Block('@vt:' + cls, 'global')
        b.mkcell = lambda off, ty: Fn('virt:%s:%d' % (cls, (off - 16) // 8))
        return b

def rnd(rng, sort, name=''):
    if name.startswith('stroption:'): return rng.choice(sorted(intrin.STRVAL))
    if sort == 'I': return rng.choice([0, 1, 1, 2, 3])
    if sort == 'B': return rng.random() < 0.5
    r = rng.random()
    if r < 0.03: return Fraction(rng.choice([3 * 10 ** 20, -3 * 10 ** 20, 10 ** 20, -10 ** 20]))
    if r < 0.15: return Fraction(rng.choice([0, 1, -1, 1, 2]))
    return Fraction(rng.randint(-32, 32), 8)

# ------------------------------------------------------------------------------------------------ views
class Arr:
    """double/int array at pointer ptr: index -> term"""
    def __init__(s, c, ptr, sort='R', sz=None): s.c = c; s.ptr = toptr(ptr); s.sort = sort; s.sz = sz or (8 if sort == 'R' else 4)
    def ty(s): return ('f', 'double') if s.sort == 'R' else ('i', 8 * s.sz)
    def snap(s):
        """frozen function of the index"""
        ex, st = s.c.ex, s.c.st; out = None
        al = [x for x in s.ptr.alts if x[1] is not None]
        if not al: return lambda j: const(0, s.sort)
        fs = []
        for g, b, o in al:
            q, r = ex.split(b, o, st)
            if q is None:
                ex.adopt(b, s.sz, st); q, r = ex.split(b, o, st)
            fs.append((g, q, ex.col(st, b, r, s.ty(), s.sz)))
        def f(j):
            j = I(j)
            v = None
            for g, q, A in reversed(fs):
                x = sel(A, add(j, q))
                if x.sort != s.sort: x = tobool(x) if s.sort == 'B' else b2i(x)
                v = x if v is None else ite(g, x, v)
            return v
        return f
    def __getitem__(s, j): return s.snap()(j)
    def write(s, n, f, lo=0):
        """elements lo..lo+n-1 := f(0..n-1)"""
        ex, st = s.c.ex, s.c.st; n = I(n); lo = I(lo)
        for g, b, o in s.ptr.alts:
            if b is None: continue
            q, r = ex.split(b, o, st)
            if q is None:
                ex.adopt(b, s.sz, st); q, r = ex.split(b, o, st)
            A = ex.col(st, b, r, s.ty(), s.sz)
            q = add(q, lo)
            def h(j, q=q, A=A, g=g):
                v = f(sub(j, q))
                if not isinstance(v, T): v = const(v, s.sort)
                if s.sort == 'R': v = R(v)
                return ite(and_(g, le(q, j), lt(j, add(q, n))), v, sel(A, j))
            cc = st.wr(b); cc.cols[r] = (s.sz, ex.ncol(b, alam(h)))
    def at(s, j, v): s.write(1, lambda _: v, lo=j)

class View:
    def __init__(s, c, ptr, cls):
        object.__setattr__(s, 'c', c); object.__setattr__(s, 'ptr', toptr(ptr)); object.__setattr__(s, 'cls', cls)
    def _mem(s, n):
        b, o = [x[1:] for x in s.ptr.alts if x[1] is not None][0]
        mm = (b.members if isc(o) and cv(o) == 0 else None) or s.c.env.members(s.cls)
        return mm[n] if mm and n in mm else None
    def __getattr__(s, n):
        m = s._mem(n)
        if m is None: raise AttributeError('%s has no member %s' % (s.cls, n))
        o, sz, t = m
        return s.c.read(pshift(s.ptr, I(o)), t, sz)
    def __setattr__(s, n, v):
        p = getattr(type(s), n, None)
        if isinstance(p, property): p.fset(s, v); return
        m = s._mem(n)
        if m is None: raise AttributeError(n)
        o, sz, t = m
        s.c.write(pshift(s.ptr, I(o)), t, sz, v)
    def isnull(s): return ptr_eq(s.ptr, NULL)
    def same(s, o): return ptr_eq(s.ptr, o.ptr)
class VecView(View):
    @property
    def n(s): return s.n_local_
    @property
    def arr(s): return Arr(s.c, s.rawptr('data_'))
    def rawptr(s, m):
        o, sz, t = s._mem(m); return toptr(s.c.ex.load(s.c.st, pshift(s.ptr, I(o)), ('ptr',), s.c.mod))
    @property
    def a(s): return s.arr.snap()
    @a.setter
    def a(s, f): s.arr.write(s.n, f)
VIEW['hiop::hiopVectorPar'] = VecView
class IntVecView(View):
    @property
    def n(s): return s.sz_
    @property
    def arr(s):
        o, sz, t = s._mem('buf_'); return Arr(s.c, toptr(s.c.ex.load(s.c.st, pshift(s.ptr, I(o)), ('ptr',), s.c.mod)), 'I', 4)
    @property
    def a(s): return s.arr.snap()
    @a.setter
    def a(s, f): s.arr.write(s.n, f)
VIEW['hiop::hiopVectorIntSeq'] = IntVecView
class Arr2:
    """row-major matrix with n columns at ptr: (i, j) -> term; two-dimensional block or flat memory"""
    def __init__(s, c, ptr, n): s.c = c; s.ptr = toptr(ptr); s.n = n
    def parts(s):
        ex, st = s.c.ex, s.c.st
        for g, b, o in s.ptr.alts:
            if b is None: continue
            q, r = ex.split(b, o, st)
            if q is None: ex.adopt(b, 8, st); q, r = ex.split(b, o, st)
            yield g, b, q, ex.col(st, b, r, ('f', 'double'), 8)
    def snap(s):
        ps = list(s.parts()); n = s.n
        def f(i, j):
            i, j = I(i), I(j); v = None
            for g, b, q, A in reversed(ps):
                x = sel(A, add(q[0], i), add(q[1], j)) if isinstance(q, tuple) else sel(A, add(q, add(mul(i, n), j)))
                v = x if v is None else ite(g, x, v)
            return v if v is not None else R(0)
        return f
    def __getitem__(s, ij): return s.snap()(*ij)
    def write(s, rows, cols, f, r0=0, c0=0, when=None):
        """entry (r0+i, c0+j) := f(i, j) for i < rows, j < cols (where when(i, j))"""
        rows, cols, r0, c0 = I(rows), I(cols), I(r0), I(c0)
        for g, b, q, A in list(s.parts()):
            cc = s.c.st.wr(b)
            def val(i, j, old):
                v = f(i, j)
                if not isinstance(v, T): v = R(v)
                return v if when is None else ite(when(i, j), v, old)
            if isinstance(q, tuple):
                a, e = add(q[0], r0), add(q[1], c0)
                def h(x, y):
                    i, j = sub(x, a), sub(y, e)
                    return ite(and_(g, le(I(0), i), lt(i, rows), le(I(0), j), lt(j, cols)), val(i, j, sel(A, x, y)), sel(A, x, y))
                cc.cols[0] = (8, alamn(2, h)); continue
            if not all(isc(x) for x in (q, rows, cols, r0, c0, s.n)): raise Unsupported('flat matrix write')
            n = cv(s.n); v = {}
            for i in range(max(0, cv(rows))):
                for j in range(max(0, cv(cols))):
                    k = cv(q) + (cv(r0) + i) * n + cv(c0) + j; v[k] = ite(g, val(I(i), I(j), sel(A, I(k))), sel(A, I(k)))
            if b.length is not None and isc(b.length): cc.cols[0] = (8, carr([v.get(k, sel(A, I(k))) for k in range(cv(b.length))])); continue
            def h1(j):
                x = sel(A, j)
                for k, y in v.items(): x = ite(eq(j, I(k)), y, x)
                return x
            cc.cols[0] = (8, s.c.ex.ncol(b, alam(h1)))
class MatView(View):
    @property
    def m(s): return s.m_local_
    @property
    def n(s): return s.n_local_
    @property
    def data(s):
        ex, st, mod = s.c.ex, s.c.st, s.c.mod
        return toptr(ex.load(st, toptr(ex.load(st, pshift(s.ptr, I(s._mem('M_')[0])), ('ptr',), mod)), ('ptr',), mod))
    @property
    def arr(s): return Arr2(s.c, s.data, s.n)
    @property
    def a(s): return s.arr.snap()
    @a.setter
    def a(s, f): s.arr.write(s.m, s.n, f)
VIEW['hiop::hiopMatrixDenseRowMajor'] = MatView
def matblock(env, nm, rows, n):
    """rows x n doubles, row-major"""
    rows, n = I(rows), I(n); env.dim(rows, n)
    if isc(n):
        return env.darr(nm, mul(rows, n))
    b = Block(nm, 'arr', None, stride=8, length=rows); b.env = env; b.rowlen = n
    A = asym(nm, 'R', 2); b.lazy_cols[0] = (8, A); env.used[nm] = A
    env.blocks.append(b)
    return b
def _shape_mat(env, b, m=None, n=None, max_rows=None, ng=None, jl=None, local=True, **kw):
    nm = b.name
    m = I(m) if m is not None else env.sym(nm + '.m', 'I')
    n = I(n) if n is not None else env.sym(nm + '.n', 'I')
    if not isc(n) and n.op != 'sym':
        n0 = n; n = env.sym(nm + '.n', 'I'); env.fact(eq(n, n0))
    mr = I(max_rows) if max_rows is not None else env.sym(nm + '.max_rows', 'I')
    env.fact(ge(m, I(0))); env.fact(ge(n, I(0))); env.fact(le(m, mr)); env.fact(ge(mr, I(1)))
    if local: ng, jl = n, I(0)
    else:
        ng = I(ng) if ng is not None else env.sym(nm + '.ng', 'I'); jl = I(jl) if jl is not None else env.sym(nm + '.jl', 'I')
        env.fact(ge(jl, I(0))); env.fact(le(add(jl, n), ng))
    for k, v in dict(m_local_=m, n_local_=n, n_global_=ng, max_rows_=mr, glob_jl_=jl, glob_ju_=add(jl, n)).items(): env.set(b, k, v)
    d = matblock(env, nm, mr, n)
    t = Block(nm + '.M_', 'arr', None, stride=8, length=mr); t.env = env
    t.ptrcol = lambda f: PtrCol(lambda i: mkptr(d, scale(8, mul(i, n)))); t.rowdata = d
    env.set(b, 'M_', mkptr(t))
    w = matblock(env, nm + '.buff', mr, n); w.scratch = True
    b.over['buff_mxnlocal_'] = ptr_ite(env.sym(nm + '.nobuff', 'B'), NULL, mkptr(w))
SHAPE['hiop::hiopMatrixDenseRowMajor'] = _shape_mat
IGNORE['hiop::hiopMatrixDenseRowMajor'] = ['buff_mxnlocal_']
class OutRef:
    """pointer/reference to a scalar"""
    def __init__(s, c, ptr, ty, sort): s.c = c; s.ptr = toptr(ptr); s.ty = ty; s.sort = sort
    @property
    def v(s):
        x = s.c.ex.load(s.c.st, s.ptr, s.ty, s.c.mod)
        return x if not isinstance(x, T) or x.sort == s.sort else (tobool(x) if s.sort == 'B' else b2i(x))
    @v.setter
    def v(s, x):
        if not isinstance(x, T): x = const(x, s.sort)
        s.c.ex.store(s.c.st, s.ptr, x, s.ty, s.c.mod)

def _shape_vec(env, b, n=None, **kw):
    nm = b.name
    n = I(n) if n is not None else env.sym(nm + '.n', 'I')
    env.fact(ge(n, I(0)))
    env.set(b, 'n_local_', n)
    env.set(b, 'data_', mkptr(env.darr(nm, n)))
SHAPE['hiop::hiopVectorPar'] = _shape_vec
def _shape_ivec(env, b, n=None, **kw):
    nm = b.name
    n = I(n) if n is not None else env.sym(nm + '.n', 'I')
    env.fact(ge(n, I(0)))
    env.set(b, 'sz_', n)
    env.set(b, 'buf_', mkptr(env.darr(nm, n, 'I', 4)))
SHAPE['hiop::hiopVectorIntSeq'] = _shape_ivec

SCAL = {'double': (('f', 'double'), 'R'), 'int': (('i', 32), 'I'), 'long': (('i', 64), 'I'), 'long long': (('i', 64), 'I'), 'bool': (('i', 8), 'B'),
        'unsigned int': (('i', 32), 'I'), 'unsigned long': (('i', 64), 'I'), 'char': (('i', 8), 'I')}

class Ctx:
    """what a spec sees: current state, views; mode 'verify' (assume requires) or 'call' (prove requires)"""
    def __init__(s, ex, st, mode, mod=None, dem=''):
        s.ex = ex; s.st = st; s.mode = mode; s.mod = mod or ex.mods[0]; s.dem = dem; s.reqs = []; s.env = ex.env
        s.ensures = []; s.lemmas = []; s.loopinv = None; s.noreq = 0
    def require(s, cond, msg='pre'):
        if cond is TRUE or s.noreq: return
        if s.mode == 'verify': s.reqs.append(cond); s.st.assume(cond)
        else:
            s.ex.oblige('pre', s.st, cond, 'precondition of %s (%s)' % (s.dem, msg))
    def effect(s, name, *args):
        """effect of a function under contract; its preconditions are left to the call in the code"""
        s.noreq += 1
        try: return REG[name].spec(s, *args)
        finally: s.noreq -= 1
    def when(s, cond, fn, other=None):
        """effects of fn where cond holds (of other elsewhere)"""
        if cond is TRUE: fn(); return
        if cond is FALSE:
            if other: other()
            return
        base = s.st.pc; a, b = s.st.copy(), s.st.copy(); ext = []
        for st, g, f in ((a, cond, fn), (b, not_(cond), other)):
            st.assume(g); n0, n = len(s.reqs), len(st.pc); s.st = st
            if f: f()
            s.reqs[n0:] = [implies(g, x) for x in s.reqs[n0:]]
            ext += [implies(g, x) for x in s.st.pc[n:]]
            s.st.pc = base + (g,)
            if f is fn: a = s.st
            else: b = s.st
        _, s.st = s.ex.merge2(a, b); s.st.pc = base
        for x in ext: s.st.assume(x)
    def wrap(s, p, cls):
        cls = s.env.cls(cls) if s.env else cls
        p = toptr(p)
        for g, b, o in p.alts:
            if b is not None and b.cls and isc(o) and cv(o) == 0: cls = b.cls; break
        return VIEW.get(cls, View)(s, p, cls)
    def read(s, p, t, sz):
        if t[0] == 'dbl': return s.ex.load(s.st, p, ('f', 'double'), s.mod)
        if t[0] == 'bool':
            v = s.ex.load(s.st, p, ('i', 8), s.mod)
            return tobool(v) if isinstance(v, T) else v
        if t[0] in ('int', 'enum'): return s.ex.load(s.st, p, ('i', sz * 8), s.mod)
        if t[0] == 'ptr':
            v = toptr(s.ex.load(s.st, p, ('ptr',), s.mod))
            if t[1][0] == 'cls': return s.wrap(v, t[1][1])
            if t[1][0] == 'dbl': return Arr(s, v)
            if t[1][0] == 'int': return Arr(s, v, 'I', t[1][1] // 8)
            return v
        if t[0] == 'cls': return VIEW.get(t[1], View)(s, p, t[1])
        raise Unsupported('read member %r' % (t,))
    def write(s, p, t, sz, v):
        if isinstance(v, View): v = v.ptr
        if t[0] == 'dbl': v = R(v) if not isinstance(v, T) or v.sort == 'I' else v; ty = ('f', 'double')
        elif t[0] == 'bool':
            ty = ('i', 8); v = const(v, 'B') if not isinstance(v, T) else v
        elif t[0] in ('int', 'enum'): ty = ('i', sz * 8); v = I(v)
        elif t[0] == 'ptr': ty = ('ptr',)
        else: raise Unsupported('write member')
        s.ex.store(s.st, p, v, ty, s.mod)
    def wraparg(s, ty, v, k=0, over=None):
        b, n = basecls(ty)
        if n == 0: 
            if b in SCAL and SCAL[b][1] == 'B' and isinstance(v, T): return tobool(v)
            return v
        if over is not None: return over(s, v)
        if n == 1 and b in SCAL:
            t, so = SCAL[b]
            if ty.endswith('&'): return OutRef(s, v, t, so)
            return Arr(s, v, so, s.mod.size(t))
        if n == 1 and (b.startswith('hiop::')) and not b.endswith('Type'): return s.wrap(v, b)
        return v
    def havoc(s, v):
        """contents of a vector/array left unspecified"""
        a = v if isinstance(v, Arr) else v.arr
        A = asym('havoc!%d' % TM.nextid(), a.sort)
        ex, st = s.ex, s.st
        for g, b, o in a.ptr.alts:
            if b is None: continue
            q, r = ex.split(b, o, st)
            cc = st.wr(b); old = ex.col(st, b, r, a.ty(), a.sz)
            cc.cols[r] = (a.sz, A if g is TRUE else ex.ncol(b, alam(lambda j: ite(g, sel(A, j), sel(old, j)))))
            b.havoced = True
    def new(s, cls, name='new'):
        """freshly allocated object (for specs returning new objects)"""
        b = Block(name, 'heap', None, cls); b.members = s.env.members(cls); b.size = s.env._sz; b.spec_new = True
        s.st.mem[b] = Content(); s.st.own.add(b)
        g = s.env.vtname(cls); s.st.wr(b).cells[0] = (8, mkptr(s.ex.gblock(g), 16))
        return VIEW.get(cls, View)(s, mkptr(b), cls)
    def destroy(s, v):
        """the object is deleted: its contents no longer count"""
        for g, b, o in (v.ptr if isinstance(v, (View, Arr)) else toptr(v)).alts:
            if b is not None: s.ex.__dict__.setdefault('freed', set()).add(b)
    def newarr(s, n, sort='R', name='newdata'):
        b = Block(name, 'heap', None, stride=8 if sort == 'R' else 4, length=I(n)); b.spec_new = True
        s.st.mem[b] = Content(); s.st.own.add(b)
        return b

# ------------------------------------------------------------------------------------------------ comparison
def compare(ex, sc, ss, rc, rs, ign=None):
    """obligations that state sc (code) equals ss (spec): list of (label, goal)"""
    out = []; bij = {}; work = []; done = set(); guard = [TRUE]
    def cmpval(lbl, a, b):
        if a is b: return
        if a is UNDEF or b is UNDEF:
            if b is UNDEF: return
            out.append((lbl + ' (undefined)', FALSE)); return
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                if a != b: out.append((lbl, FALSE))
                return
            out.append((lbl, cmpptr(toptr(a), toptr(b)))); return
        if isinstance(a, Agg) and isinstance(b, Agg):
            for k, (x, y) in enumerate(zip(a.v, b.v)): cmpval('%s.%d' % (lbl, k), x, y)
            return
        if a.sort != b.sort: a, b = (tobool(a) if a.sort == 'I' else a), (tobool(b) if b.sort == 'I' else b)
        if a.sort != b.sort: out.append((lbl + ' (sort)', FALSE)); return
        if hashav(b):
            g = eqhav(a, b)
            if g is not TRUE: out.append((lbl, g))
            return
        if TM.CONC[0] and a.sort == 'R' and close(a, b): return
        out.append((lbl, eq(a, b)))
    def cmpptr(p, q):
        r = []
        for c, b, o in p.alts:
            for d, b2, o2 in q.alts:
                if b is None or b2 is None:
                    if b is b2: r.append(and_(c, d))
                    continue
                if b is b2: r.append(and_(c, d, eq(o, o2))); continue
                if getattr(b2, 'spec_new', False) and b.kind == 'heap':
                    if b2 not in bij and b not in bij.values(): bij[b2] = b
                    if bij.get(b2) is b:
                        r.append(and_(c, d, eq(o, o2))); g = and_(guard[0], c, d)
                        # contents count where the new object is reachable
                        if (b2, g) not in done and (b2, TRUE) not in done: done.add((b2, g)); work.append((b, b2, g))
        return or_(*r) if r else FALSE
    if rs is not None and rc is not None: cmpval('result', rc, rs)
    elif rs is not None: out.append(('result missing', FALSE))
    seen = set()
    blks = [b for b in set(sc.mem) | set(ss.mem) if b.kind in ('obj', 'arr', 'global', 'heap')]
    blks.sort(key=lambda b: b.id)
    for b in blks:
        if b.kind == 'heap' or getattr(b, 'scratch', False) or b in getattr(ex, 'freed', ()): continue
        x, y = sc.mem.get(b), ss.mem.get(b)
        if x is y: continue
        cmpblock(ex, b, b, x or Content(), y or Content(), cmpval, out, b.ignore)
    while work:
        b, b2, guard[0] = work.pop()
        x, y = sc.mem.get(b) or Content(), ss.mem.get(b2) or Content()
        n0 = len(out); cmpnew(ex, b, b2, x, y, cmpval, out)
        if guard[0] is not TRUE: out[n0:] = [(l, implies(guard[0], g)) for l, g in out[n0:]]
    return out
def close(a, b):
    """numeric agreement up to rounding of irrational primitives; unknown values (nan, ..) do not discriminate"""
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        return abs(x - y) <= Fraction(1, 10**9) * max(1, abs(x), abs(y))
    return any('nan' in v.args[0] or 'inf' in v.args[0] for v in (a.fv | b.fv))
def cmpblock(ex, b, b2, x, y, cmpval, out, ign):
    if (x.stride or b.stride) != (y.stride or b.stride):
        if x.stride and y.cells: y = ex._adopt_content(b, y, x.stride)
        elif y.stride and x.cells: x = ex._adopt_content(b, x, y.stride)
    for o in sorted(set(x.cells) | set(y.cells)):
        if o in ign: continue
        ex_, ey = x.cells.get(o), y.cells.get(o)
        def dflt(cont, like):
            if cont.zero and any(zo <= o < zo + zl for zo, zl in cont.zero):
                v = like[1]; return (like[0], NULL if isinstance(v, Ptr) else const(0, v.sort))
            return ex.initcell(b, o, like)
        if ex_ is None: ex_ = dflt(x, ey)
        if ey is None: ey = dflt(y, ex_)
        nm = '+%d' % o
        for k, (mo, ms, mt) in (b.members or {}).items():
            if mo == o and k != '_vptr': nm = k
        cmpval('%s.%s' % (b.name, nm), ex_[1], ey[1])
    for f in sorted(set(x.cols) | set(y.cols)):
        fx, fy = x.cols.get(f), y.cols.get(f)
        if fx is None: fx = ex.initcol(b, f, fy)
        if fy is None: fy = ex.initcol(b, f, fx)
        cmpcol(b, f, fx[1], fy[1], b.length, cmpval, out)
def cmpcol(b, f, A, B, n, cmpval, out):
    if A is B: return
    if isinstance(B, T) and B.op == 'sym' and B.args[0].startswith('havoc!'): return
    if isinstance(A, PtrCol) or isinstance(B, PtrCol):
        j = fresh('j', 'I')
        g = and_(le(I(0), j), lt(j, n)) if n is not None else le(I(0), j)
        n0 = len(out); cmpval('%s[%s]' % (b.name, f), A.f(j), B.f(j))
        out[n0:] = [(l, implies(g, x)) for l, x in out[n0:]]; return
    if TM.EXPAND[0] and n is not None and isc(n):
        for k in range(cv(n)): cmpval('%s[%d]' % (b.name, k), sel(A, I(k)), sel(B, I(k)))
        return
    if arity(A if isinstance(A, T) else B) == 2:
        i, j = fresh('j', 'I'), fresh('j', 'I'); a, c = sel(A, i, j), sel(B, i, j)
        if a is c: return
        g = and_(le(I(0), i), le(I(0), j), lt(j, b.rowlen), *([lt(i, n)] if n is not None else []))
        out.append(('%s[i,j]' % b.name, implies(g, eq(a, c)))); return
    j = fresh('j', 'I')
    a, c = sel(A, j), sel(B, j)
    if a is c: return
    if a.sort != c.sort: a, c = b2i(a), b2i(c)
    g = and_(le(I(0), j), lt(j, n)) if n is not None else le(I(0), j)
    out.append(('%s[j]' % b.name, implies(g, eqhav(a, c) if hashav(c) else eq(a, c))))
def hashav(t): return any(v.op == 'sym' and v.args[0].startswith('havoc!') for v in t.fv)
def eqhav(a, c):
    """a equals c except where c is unspecified"""
    if c.op == 'sel' and c.args[0].op == 'sym' and c.args[0].args[0].startswith('havoc!'): return TRUE
    if c.op == 'sym' and c.args[0].startswith('havoc!'): return TRUE
    if c.op == 'ite': return and_(implies(c.args[0], eqhav(a, c.args[1])), implies(not_(c.args[0]), eqhav(a, c.args[2])))
    return TRUE if TM.CONC[0] and a.sort == 'R' and close(a, c) else eq(a, c)
def cmpnew(ex, b, b2, x, y, cmpval, out):
    """b: allocated by code, b2: allocated by spec; compare what the spec defines"""
    mem = b2.members or {}
    for o, (sz, v) in sorted(y.cells.items()):
        e = x.cells.get(o)
        if e is None:
            if x.zero and any(zo <= o < zo + zl for zo, zl in x.zero): e = (sz, NULL if isinstance(v, Ptr) else const(0, v.sort))
            else: out.append(('new %s.+%d not initialised' % (b2.name, o), FALSE)); continue
        nm = [k for k, m in mem.items() if m[0] == o and k != '_vptr']
        cmpval('new %s.%s' % (b2.name, nm[0] if nm else '+%d' % o), e[1], v)
    for f, (sz, B) in sorted(y.cols.items()):
        n = b2.length
        if b.length is None and getattr(b, 'bytes', None) is not None: b.length = idiv(I(b.bytes), I(b2.stride or 8))
        if x.stride is None and not b.stride and (x.cells or not x.cols):
            x = ex._adopt_content(b, x, b2.stride or 8) if x.cells else x
        if b.length is not None and n is not None: cmpval('new %s length' % b2.name, b.length, n)
        e = x.cols.get(f)
        if e is None:
            out.append(('new %s contents not initialised' % b2.name, le(n, I(0)))); continue
        cmpcol(b2, f, e[1], B, n, cmpval, out)

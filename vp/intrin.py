"""LLVM intrinsics and trusted models of external functions."""
import re
from .terms import *
from . import terms as TM
from .sym import *
from fractions import Fraction
import math

def llvm_intrinsic(ex, fr, ins, st, name, a):
    mod = fr.f.mod
    n = name.split('.')
    k = n[1]
    if k in ('lifetime', 'dbg', 'invariant', 'assume', 'donothing', 'experimental', 'prefetch', 'va_start', 'va_end', 'stackrestore', 'eh'): return UNDEF, st
    if k == 'stacksave': return UNDEF, st
    if k in ('memcpy', 'memmove'): ex.memcpy(st, a[0], a[1], a[2], mod); return None, st
    if k == 'memset': ex.memset(st, a[0], a[1], a[2], mod); return None, st
    if k == 'fabs': return absr(a[0]), st
    if k == 'sqrt': return uf('sqrt', [a[0]], 'R'), st
    if k in ('pow', 'powi'): return fpow(a[0], a[1]), st
    if k in ('exp', 'log', 'floor', 'ceil', 'log10', 'sin', 'cos', 'trunc', 'round'): return uf(k, [a[0]], 'R'), st
    if k in ('maxnum', 'maximum'): return maxr(a[0], a[1]), st
    if k in ('minnum', 'minimum'): return minr(a[0], a[1]), st
    if k in ('smax', 'umax'): return maxr(a[0], a[1]), st
    if k in ('smin', 'umin'): return minr(a[0], a[1]), st
    if k == 'abs': return absr(a[0]), st
    if k in ('fmuladd', 'fma'): return add(mul(a[0], a[1]), a[2]), st
    if k == 'expect': return a[0], st
    if k == 'is': # is.fpclass
        m = cv(a[1]); x = a[0]
        return fpclass(x, m), st
    if k in ('umul', 'smul') and 'overflow' in name: return Agg([mul(a[0], a[1]), FALSE]), st
    if k in ('uadd', 'sadd') and 'overflow' in name: return Agg([add(a[0], a[1]), FALSE]), st
    if k == 'objectsize': return I(-1), st
    if k == 'trap': return None, None
    if k == 'copysign':
        return ite(ge(a[1], R(0)), absr(a[0]), neg(absr(a[0]))), st
    raise Unsupported(name)
def isnan_t(x): return FALSE if isc(x) else uf('isnan', [x], 'B')
def isinf_t(x): return FALSE if isc(x) else uf('isinf', [x], 'B')
def fpclass(x, m):
    nan = m & 3; inf = m & 0x204; fin = m & 0x1f8
    r = FALSE
    if nan == 3: r = or_(r, isnan_t(x))
    if inf == 0x204: r = or_(r, isinf_t(x))
    if fin == 0x1f8: r = or_(r, and_(not_(isnan_t(x)), not_(isinf_t(x))))
    if (nan not in (0, 3)) or (inf not in (0, 0x204)) or (fin not in (0, 0x1f8)): raise Unsupported('fpclass %x' % m)
    return r
def fpow(x, y):
    if isc(y):
        v = cv(y)
        if v == 2: return mul(x, x)
        if v == 1: return x
        if v == 0: return R(1)
        if isc(x) and cv(x) > 0:
            try: return const(Fraction(math.pow(float(cv(x)), float(v))), 'R')
            except (OverflowError, ValueError): pass
    return uf('pow', [x, R(y)], 'R')
TM.UFS.update(sqrt=lambda x: math.sqrt(x) if x >= 0 else math.nan, exp=lambda x: math.exp(x) if x < 700 else math.inf,
    log=lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan), log10=lambda x: math.log10(x) if x > 0 else math.nan, floor=lambda x: float(math.floor(x)), ceil=lambda x: float(math.ceil(x)),
    isnan=lambda x: x != x, isinf=lambda x: x in (math.inf, -math.inf), pow=lambda x, y: pw(x, y), fmod=math.fmod,
    bitand=lambda a, b: a & b, bitor=lambda a, b: a | b, bitxor=lambda a, b: a ^ b)
def pw(x, y):
    try: return math.pow(x, y)
    except (ValueError, OverflowError): return math.nan

EXT = []   # (regex, handler)
def ext(rx):
    def d(h): EXT.append((re.compile(rx), h)); return h
    return d
def noret(cx): cx.st = None; return None
@ext(r'^(__assert_fail|abort|exit|_exit|__cxa_throw|__cxa_rethrow|__cxa_bad_cast|__cxa_pure_virtual|std::terminate\(\)|std::__throw_.*|__clang_call_terminate|__stack_chk_fail)$')
def _(cx):
    if cx.name == '__assert_fail' and not cx.ex.quiet_obl:
        cx.ex.oblige('assert', cx.st, FALSE, 'assert(%s)' % (cx.ex.cstr(cx.args[0]) or '?'))
    cx.st = None; return None
@ext(r'^__dynamic_cast$')
def _(cx):
    ex, st = cx.ex, cx.st
    p = toptr(cx.args[0]); tgt = cx.args[2].base.name.lstrip('@')
    src = cx.args[1].base.name.lstrip('@')
    out = None
    for c, b, o in p.alts:
        if b is None: r = NULL
        else:
            vt = toptr(ex.load(st, Ptr([(TRUE, b, o)]), ('ptr',), cx.mod))
            vb = vt.base.name
            if not vb.startswith('@_ZTV'): raise Unsupported('dynamic_cast on ' + vb)
            ti = '_ZTI' + vb[5:]
            r = Ptr([(TRUE, b, o)]) if derives(ex, ti, tgt) else NULL
        out = r if out is None else ptr_ite(c, r, out)
    return out
def derives(ex, ti, tgt):
    if ti == tgt: return True
    for m in ex.mods:
        if ti in m.gtxt:
            g = m.glob(ti)
            if g is None or g[1] is None: continue
            for t, v in g[1][1][2:]:
                if v[0] == 'glo' and v[1].startswith('_ZTI') and derives(ex, v[1], tgt): return True
            return False
    raise Unsupported('typeinfo ' + ti)
@ext(r'^operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)$|^malloc$')
def _(cx):
    n = cx.args[0]
    b = cx.ex.alloc(cx.st, 'new', 'heap', cv(n) if isc(n) else n)
    b.bytes = n
    return mkptr(b)
@ext(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$|^free$')
def _(cx):
    G = getattr(getattr(cx.ex, 'env', None), 'track_release', None)
    if G is not None: released(cx, cx.args[0])
    return None
def relcell(G, b):
    """ghost: has the block been released"""
    if b not in G:
        x = Block('released:' + b.name, 'obj'); x.members = {}; x.over = {}; x.cls = None; x.scratch = True; x.mkcell = lambda off, ty: I(0); G[b] = x
    return G[b]
def released(cx, p):
    G = cx.ex.env.track_release
    for g, b, o in toptr(p).alts:
        if b is None: continue
        q = mkptr(relcell(G, b)); old = cx.ex.load(cx.st, q, ('i', 32), cx.mod)
        cx.ex.oblige('release', cx.st, implies(g, and_(eq(old, I(0)), eq(o, I(0)))), '%s is released once' % b.name)
        cx.ex.store(cx.st, q, ite(g, I(1), old), ('i', 32), cx.mod)
def was_released(c, b): return eq(c.ex.load(c.st, mkptr(relcell(c.ex.env.track_release, b)), ('i', 32), c.mod), I(1))
@ext(r'^(std::)?(sqrt|sqrtl)(\(double\))?$')
def _(cx): return uf('sqrt', [cx.args[0]], 'R')
@ext(r'^(std::)?(fabs|fabsl|abs)(\(double\))?$')
def _(cx): return absr(cx.args[0])
@ext(r'^(log|exp|floor|ceil|log10)$')
def _(cx): return uf(cx.name, [cx.args[0]], 'R')
@ext(r'^pow$')
def _(cx): return fpow(cx.args[0], cx.args[1])
@ext(r'^f(max|min)$')
def _(cx): return (maxr if cx.name == 'fmax' else minr)(cx.args[0], cx.args[1])
@ext(r'^(memcpy|memmove)$')
def _(cx): cx.ex.memcpy(cx.st, cx.args[0], cx.args[1], cx.args[2], cx.mod); return cx.args[0]
@ext(r'^memset$')
def _(cx): cx.ex.memset(cx.st, cx.args[0], cx.args[1], cx.args[2], cx.mod); return cx.args[0]
@ext(r'^(printf|fprintf|puts|putchar|fflush|snprintf|fputs|fwrite|fputc)$')
def _(cx): return fresh('io', 'I')
@ext(r'^(__cxa_begin_catch|__cxa_end_catch|__cxa_allocate_exception|__cxa_free_exception|__gxx_personality_v0)$')
def _(cx): return UNDEF
@ext(r'^std::(__1::)?(basic_ostream|ostream).*|^std::ios_base::|^std::operator<<.*|^std::basic_ostream<.*> ?& std::operator<<.*|^(std::__cxx11::)?std::__cxx11::basic_(o|i)?stringstream<.*')
def _(cx): return UNDEF

# ---------------------------------------------------------------- std::string: an object holding one abstract value (an interned id)
STRID = {'': 0}; STRVAL = {0: ''}
def strid(t):
    if t not in STRID: STRID[t] = 1000 + len(STRID); STRVAL[STRID[t]] = t
    return I(STRID[t])
I64 = ('i', 64)
def sread(cx, p):
    v = cx.ex.load(cx.st, toptr(p), I64, cx.mod)
    return b2i(v)
def swrite(cx, p, v): cx.ex.store(cx.st, toptr(p), v, I64, cx.mod)
def cstrid(cx, p):
    """id of a char const*"""
    p = toptr(p)
    r = None
    for c, b, o in p.alts:
        if b is None: continue
        if getattr(b, 'strterm', None) is not None: v = b.strterm
        elif b.const is not None: v = strid(cx.ex.cstr(Ptr([(TRUE, b, o)])))
        else:
            if getattr(b, 'strsym', None) is None: b.strsym = sym('str:' + b.name, 'I')
            v = b.strsym
        r = v if r is None else ite(c, v, r)
    if r is None: raise Unsupported('null string')
    return r
BS = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
BSr = BS + r'( const)?&{1,2}'
def sconv(cx, ty, v): return sread(cx, v) if 'basic_string' in ty else cstrid(cx, v)
def _ptypes(dem):
    from .contract import sigtypes
    return sigtypes(dem)
@ext(r'^' + BS + r'::basic_string(<.*>)?\(')
def _(cx):
    ty = _ptypes(cx.dem)
    if not ty or ty[0].startswith('std::allocator'): v = I(0)
    elif len(ty) >= 2 and not ty[1].startswith('std::allocator'): v = fresh('str', 'I')
    else: v = sconv(cx, ty[0], cx.args[1])
    swrite(cx, cx.args[0], v); return UNDEF
@ext(r'^' + BS + r'::(operator=|assign)\(')
def _(cx):
    ty = _ptypes(cx.dem); swrite(cx, cx.args[0], sconv(cx, ty[0], cx.args[1]) if len(ty) == 1 and 'char)' not in cx.dem[-6:] else fresh('str', 'I')); return cx.args[0]
@ext(r'^' + BS + r'::(~basic_string|reserve)\(|^(std::allocator<char>|std::__new_allocator<char>|__gnu_cxx::new_allocator<char>)::')
def _(cx): return cx.args[0] if cx.args else UNDEF
@ext(r'^' + BS + r'::clear\(')
def _(cx): swrite(cx, cx.args[0], I(0)); return UNDEF
@ext(r'^' + BS + r'::(size|length)\(\) const')
def _(cx):
    v = sread(cx, cx.args[0])
    if isc(v) and cv(v) in STRVAL: return I(len(STRVAL[cv(v)]))
    n = uf('strlen', [v], 'I'); cx.st.assume(ge(n, I(0))); cx.st.assume(eq(eq(n, I(0)), eq(v, I(0)))); return n
@ext(r'^' + BS + r'::empty\(\) const')
def _(cx): return eq(sread(cx, cx.args[0]), I(0))
@ext(r'^' + BS + r'::(c_str|data)\(\) const')
def _(cx):
    b = Block('cstr', 'heap'); b.strterm = sread(cx, cx.args[0]); return mkptr(b)
@ext(r'^' + BS + r'::(operator\+=|append|push_back|insert|replace|erase|pop_back)')
def _(cx):
    ty = _ptypes(cx.dem)
    if len(ty) == 1 and ('basic_string' in ty[0] or ty[0] == 'char const*'): v = uf('strcat', [sread(cx, cx.args[0]), sconv(cx, ty[0], cx.args[1])], 'I')
    else: v = fresh('str', 'I')
    swrite(cx, cx.args[0], v); return cx.args[0]
@ext(r'^' + BS + r'::compare\(')
def _(cx):
    ty = _ptypes(cx.dem); a, b = sread(cx, cx.args[0]), sconv(cx, ty[0], cx.args[1]); return ite(eq(a, b), I(0), ite(uf('strless', [a, b], 'B'), I(-1), I(1)))
@ext(r'^bool std::operator(==|!=|<)<char, std::char_traits<char>, std::allocator<char> ?>\(|^std::operator(==|!=|<)<char')
def _(cx):
    ty = _ptypes(cx.dem); a, b = sconv(cx, ty[0], cx.args[0]), sconv(cx, ty[1], cx.args[1])
    if 'operator==' in cx.dem: return eq(a, b)
    if 'operator!=' in cx.dem: return not_(eq(a, b))
    return and_(not_(eq(a, b)), uf('strless', [a, b], 'B'))
@ext(r'.*std::(__cxx11::)?operator\+<char|^std::__cxx11::to_string')
def _(cx):
    # sret: result object is the first argument
    swrite(cx, cx.args[0], fresh('str', 'I')); return UNDEF
@ext(r'^strcmp$')
def _(cx): a, b = cstrid(cx, cx.args[0]), cstrid(cx, cx.args[1]); return ite(eq(a, b), I(0), ite(uf('strless', [a, b], 'B'), I(-1), I(1)))
# ---------------------------------------------------------------- MPI (SPMD: every rank makes the same call sequence)
MPIOPS = {'ompi_mpi_op_sum': 'sum', 'ompi_mpi_op_min': 'min', 'ompi_mpi_op_max': 'max', 'ompi_mpi_op_land': 'land', 'ompi_mpi_op_lor': 'lor', 'ompi_mpi_op_prod': 'prod'}
def allred(op, x): return uf('MPI_' + op, [x], x.sort)
# in concrete runs: what the other ranks contribute (their extremum is either moderate or neutral)
NEUTRAL = [False]
def _mm(f, x): return f(x, ((1.7976931348623157e308 if f is min else -1.7976931348623157e308) if NEUTRAL[0] else 0.3125) if isinstance(x, float) else ((2 ** 31 - 1 if f is min else -2 ** 31) if NEUTRAL[0] else (1 if f is min else 0)))
TM.UFS.update(MPI_sum=lambda x: x + 5, MPI_min=lambda x: _mm(min, x), MPI_max=lambda x: _mm(max, x), MPI_land=lambda x: x, MPI_lor=lambda x: x)
@ext(r'^MPI_Allreduce$')
def _(cx):
    a = cx.args; ex, st = cx.ex, cx.st
    op = a[4].base.name.lstrip('@'); ty = a[3].base.name.lstrip('@')
    if op not in MPIOPS: raise Unsupported('MPI op ' + op)
    t = {'ompi_mpi_double': ('f', 'double'), 'ompi_mpi_int': ('i', 32), 'ompi_mpi_long_long_int': ('i', 64), 'ompi_mpi_long': ('i', 64)}[ty]
    src = toptr(a[0])
    n = a[2]
    if not isc(n):
        d = toptr(a[1]).nonnull(); sz = cx.mod.size(t)
        sp = d if is_inplace(src) else src.nonnull()
        for gd, b, do in d.alts:
            for gs, sb, so in (sp.alts if not is_inplace(src) else [(TRUE, b, do)]):
                g = and_(gd, gs)
                if g is FALSE: continue
                for x, y in ((sb, b), (b, sb)):
                    if x.rowlen is not None and y.rowlen is None and ex.dststride(st, y) is None and rowcol(n, x.rowlen)[1] is I(0): ex.reshape(y, x.rowlen, st)
                for x in (sb, b):
                    if ex.dststride(st, x) is None: ex.adopt(x, sz, st)
                qs, rs = ex.split(sb, so, st); qd, rd = ex.split(b, do, st)
                if isinstance(qs, tuple) or isinstance(qd, tuple): ex.copy2d(st, b, qd, sb, qs, n, lambda v, old: ite(g, allred(MPIOPS[op], v), old), g); continue
                for x, q in ((sb, qs), (b, qd)): vbounds(cx, x, q, n, 'MPI_Allreduce')
                A = ex.col(st, sb, rs, t, sz); D = ex.col(st, b, rd, t, sz)
                c = st.wr(b); c.cols[rd] = (sz, ex.ncol(b, alam(lambda j: ite(and_(g, le(qd, j), lt(j, add(qd, n))), allred(MPIOPS[op], sel(A, add(sub(j, qd), qs))), sel(D, j)))))
        return I(0)
    for k in range(cv(n)):
        o = I(k * cx.mod.size(t))
        v = ex.load(st, pshift(toptr(a[1]) if is_inplace(src) else src, o), t, cx.mod)
        ex.store(st, pshift(toptr(a[1]), o), allred(MPIOPS[op], v), t, cx.mod)
    return I(0)
def is_inplace(p):
    return p.single and p.base is None and isc(p.off) and cv(p.off) == 1
@ext(r'^MPI_Comm_rank$')
def _(cx): cx.ex.store(cx.st, cx.args[1], sym('mpi_rank', 'I'), ('i', 32), cx.mod); return I(0)
@ext(r'^MPI_Comm_size$')
def _(cx): cx.ex.store(cx.st, cx.args[1], sym('mpi_size', 'I'), ('i', 32), cx.mod); return I(0)
@ext(r'^MPI_(Barrier|Finalize|Init)$')
def _(cx): return I(0)
# ---------------------------------------------------------------- reference BLAS (trusted: netlib definitions)
def ival(cx, p): return cx.ex.load(cx.st, p, ('i', 32), cx.mod)
def dval(cx, p): return cx.ex.load(cx.st, p, ('f', 'double'), cx.mod)
def acol(cx, p):
    """(block, index offset, array) of a double pointer"""
    p = toptr(p)
    if p.single and p.base is None: return None, I(0), alam(lambda j: R(0))
    p = p.nonnull()
    if not p.single: raise Unsupported('BLAS on ambiguous pointer')
    b = p.base
    q, r = cx.ex.split(b, p.off, cx.st)
    if q is None: cx.ex.adopt(b, 8, cx.st); q, r = cx.ex.split(b, p.off, cx.st)
    return b, q, cx.ex.col(cx.st, b, r, ('f', 'double'), 8)
def setcol(cx, b, f, fld=0):
    c = cx.st.wr(b); c.cols[fld] = (8, cx.ex.ncol(b, alam(f)))
def vbounds(cx, b, q, n, what):
    if b is not None and b.length is not None: cx.ex.oblige('bounds', cx.st, or_(le(n, I(0)), and_(le(I(0), q), le(add(q, n), b.length))), what)
def inc1(cx, p):
    v = ival(cx, p)
    if not (isc(v) and cv(v) == 1): raise Unsupported('BLAS increment %r' % (v,))
@ext(r'^daxpy_$')
def _(cx):
    a = cx.args; n = ival(cx, a[0]); al = dval(cx, a[1]); inc1(cx, a[3]); inc1(cx, a[5])
    bx, qx, X = acol(cx, a[2]); by, qy, Y = acol(cx, a[4])
    if isinstance(qx, tuple) or isinstance(qy, tuple): return cx.ex.copy2d(cx.st, by, qy, bx, qx, n, lambda v, old: add(old, mul(al, v)))
    vbounds(cx, bx, qx, n, 'daxpy x'); vbounds(cx, by, qy, n, 'daxpy y')
    if by is None: return
    setcol(cx, by, lambda j: ite(and_(le(qy, j), lt(j, add(qy, n))), add(sel(Y, j), mul(al, sel(X, add(sub(j, qy), qx)))), sel(Y, j)))
@ext(r'^dcopy_$')
def _(cx):
    a = cx.args; n = ival(cx, a[0]); inc1(cx, a[2]); inc1(cx, a[4])
    bx, qx, X = acol(cx, a[1]); by, qy, Y = acol(cx, a[3])
    if isinstance(qx, tuple) or isinstance(qy, tuple): return cx.ex.copy2d(cx.st, by, qy, bx, qx, n, lambda v, old: v)
    vbounds(cx, bx, qx, n, 'dcopy x'); vbounds(cx, by, qy, n, 'dcopy y')
    if by is None: return
    setcol(cx, by, lambda j: ite(and_(le(qy, j), lt(j, add(qy, n))), sel(X, add(sub(j, qy), qx)), sel(Y, j)))
@ext(r'^dscal_$')
def _(cx):
    a = cx.args; n = ival(cx, a[0]); al = dval(cx, a[1]); inc1(cx, a[3])
    b, q, X = acol(cx, a[2])
    if isinstance(q, tuple): return cx.ex.copy2d(cx.st, b, q, None, None, n, lambda v, old: mul(al, old))
    vbounds(cx, b, q, n, 'dscal')
    if b is None: return
    setcol(cx, b, lambda j: ite(and_(le(q, j), lt(j, add(q, n))), mul(al, sel(X, j)), sel(X, j)))
@ext(r'^ddot_$')
def _(cx):
    a = cx.args; n = ival(cx, a[0]); inc1(cx, a[2]); inc1(cx, a[4])
    bx, qx, X = acol(cx, a[1]); by, qy, Y = acol(cx, a[3])
    vbounds(cx, bx, qx, n, 'ddot x'); vbounds(cx, by, qy, n, 'ddot y')
    return Sum(n, lambda i: mul(sel(X, add(i, qx)), sel(Y, add(i, qy))))
@ext(r'^dnrm2_$')
def _(cx):
    a = cx.args; n = ival(cx, a[0]); inc1(cx, a[2]); bx, qx, X = acol(cx, a[1]); vbounds(cx, bx, qx, n, 'dnrm2')
    return uf('sqrt', [Sum(n, lambda i: mul(sel(X, add(i, qx)), sel(X, add(i, qx))))], 'R')

class FMat:
    """column-major BLAS view A(i,j), 0-based, of the memory at p with leading dimension ld"""
    def __init__(s, cx, p, ld, what):
        s.cx = cx; s.b, s.q, s.A = acol(cx, p); s.ld = ld
        s.two = isinstance(s.q, tuple)
        s.row = s.two and isc(ld) and cv(ld) == 1          # a row read as a 1 x n matrix
        if s.two and not s.row and s.b.rowlen is not ld: raise Unsupported('leading dimension of ' + what)
    def at(s, i, j):
        if s.row: return sel(s.A, s.q[0], add(s.q[1], add(i, j)))
        if s.two: return sel(s.A, add(s.q[0], j), add(s.q[1], i))
        return sel(s.A, add(s.q, add(i, mul(j, s.ld))))
    def bounds(s, m, n, what):
        """m x n block"""
        if s.b is None: s.cx.ex.oblige('bounds', s.cx.st, or_(le(m, I(0)), le(n, I(0))), what); return
        if s.row: g = s.cx.ex.inb(s.b, s.q, add(n, sub(m, I(1))))
        elif s.two: g = and_(le(I(0), s.q[0]), le(add(s.q[0], n), s.b.length) if s.b.length is not None else TRUE, le(I(0), s.q[1]), le(add(s.q[1], m), s.ld))
        elif s.b.length is None: return
        else: g = and_(le(I(0), s.q), le(add(s.q, add(mul(sub(n, I(1)), s.ld), m)), s.b.length), le(m, s.ld))
        s.cx.ex.oblige('bounds', s.cx.st, or_(le(m, I(0)), le(n, I(0)), g), what, s.two)
    def write(s, m, n, f):
        """entries (i,j), i < m, j < n := f(i,j,old)"""
        cx = s.cx; A = s.A
        if s.b is None: return
        c = cx.st.wr(s.b)
        if s.row: raise Unsupported('row write')
        if s.two:
            q = s.q
            c.cols[0] = (8, alamn(2, lambda r, k: ite(and_(le(q[0], r), lt(r, add(q[0], n)), le(q[1], k), lt(k, add(q[1], m))), f(sub(k, q[1]), sub(r, q[0]), sel(A, r, k)), sel(A, r, k)))); return
        if not (isc(m) and isc(n) and isc(s.ld) and isc(s.q)): raise Unsupported('flat matrix write')
        v = {}
        for j in range(max(0, cv(n))):
            for i in range(max(0, cv(m))):
                k = cv(s.q) + i + j * cv(s.ld); v[k] = f(I(i), I(j), sel(A, I(k)))
        def g(j):
            r = sel(A, j)
            for k, x in v.items(): r = ite(eq(j, I(k)), x, r)
            return r
        if s.b.length is not None and isc(s.b.length): c.cols[0] = (8, carr([v.get(k, sel(A, I(k))) for k in range(cv(s.b.length))])); return
        c.cols[0] = (8, cx.ex.ncol(s.b, alam(g)))
def flagc(cx, p):
    v = cx.ex.load(cx.st, p, ('i', 8), cx.mod)
    if not isc(v): raise Unsupported('BLAS flag')
    return chr(cv(v)).upper()
@ext(r'^dgemv_$')
def _(cx):
    a = cx.args; tr = flagc(cx, a[0]); m, n = ival(cx, a[1]), ival(cx, a[2]); al = dval(cx, a[3]); ld = ival(cx, a[5])
    A = FMat(cx, a[4], ld, 'dgemv'); inc1(cx, a[7]); inc1(cx, a[10]); be = dval(cx, a[8])
    bx, qx, X = acol(cx, a[6]); by, qy, Y = acol(cx, a[9])
    ny, nx = (m, n) if tr == 'N' else (n, m)
    A.bounds(m, n, 'dgemv A')
    vbounds(cx, bx, qx, nx, 'dgemv x'); vbounds(cx, by, qy, ny, 'dgemv y')
    if by is None: return
    def row(i):
        if tr == 'N': return Sum(n, lambda k: mul(A.at(i, k), sel(X, add(k, qx))))
        return Sum(m, lambda k: mul(A.at(k, i), sel(X, add(k, qx))))
    def f(j):
        i = sub(j, qy)
        return ite(and_(le(qy, j), lt(j, add(qy, ny))), add(mul(be, sel(Y, j)), mul(al, row(i))), sel(Y, j))
    # BLAS returns without touching y when a dimension is zero
    c0 = or_(le(m, I(0)), le(n, I(0)))
    setcol(cx, by, lambda j: ite(c0, sel(Y, j), f(j)))
@ext(r'^dgemm_$')
def _(cx):
    a = cx.args; ta, tb = flagc(cx, a[0]), flagc(cx, a[1]); m, n, k = [ival(cx, a[q]) for q in (2, 3, 4)]; al = dval(cx, a[5])
    A = FMat(cx, a[6], ival(cx, a[7]), 'dgemm A'); B = FMat(cx, a[8], ival(cx, a[9]), 'dgemm B'); be = dval(cx, a[10]); C = FMat(cx, a[11], ival(cx, a[12]), 'dgemm C')
    A.bounds(*((m, k) if ta == 'N' else (k, m)), 'dgemm A'); B.bounds(*((k, n) if tb == 'N' else (n, k)), 'dgemm B'); C.bounds(m, n, 'dgemm C')
    oa = (lambda i, l: A.at(i, l)) if ta == 'N' else (lambda i, l: A.at(l, i))
    ob = (lambda l, j: B.at(l, j)) if tb == 'N' else (lambda l, j: B.at(j, l))
    C.write(m, n, lambda i, j, old: add(mul(be, old), mul(al, Sum(k, lambda l: mul(oa(i, l), ob(l, j))))))
@ext(r'^dlange_$')
def _(cx):
    a = cx.args; nm = flagc(cx, a[0]); m, n = ival(cx, a[1]), ival(cx, a[2]); A = FMat(cx, a[3], ival(cx, a[4]), 'dlange')
    if nm != 'M': raise Unsupported('dlange norm ' + nm)
    A.bounds(m, n, 'dlange')
    return mat_maxabs(m, n, A.at)
def mat_maxabs(m, n, at):
    """max |A(i,j)|, 0 for an empty matrix: running maximum over j of the running maximum over i"""
    z = R(0)
    if isc(m) and cv(m) == 1: return Fold(n, z, lambda acc, j: maxr(acc, absr(at(I(0), j))))
    return Fold(n, z, lambda acc, j: maxr(acc, Fold(m, z, lambda q, i: maxr(q, absr(at(i, j))))))

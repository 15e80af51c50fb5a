"""Symbolic executor over LLVM IR with memory objects and automatic, inductively checked loop summaries."""
import re, math
from fractions import Fraction
from .terms import *
from . import terms as TM
from . import ir
from .prove import prove

class Unsupported(Exception): pass

class Block:
    _n = 0
    def __init__(s, name, kind, size=None, cls=None, stride=None, length=None):
        Block._n += 1
        s.id = Block._n; s.name = name; s.kind = kind; s.size = size; s.cls = cls
        s.stride = stride      # element stride for array blocks
        s.length = length      # element count (T) or None
        s.lazy_cells = {}; s.lazy_cols = {}
        s.members = None; s.const = None; s.ignore = set(); s.rowlen = None
    def __repr__(s): return '<%s#%d>' % (s.name, s.id)

class Ptr:
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = tuple(alts)
    def __repr__(s): return 'Ptr[' + '; '.join('%s%r+%r' % ('' if c is TRUE else '%r? ' % c, b, o) for c, b, o in s.alts) + ']'
    @property
    def single(s): return len(s.alts) == 1
    @property
    def base(s):
        if len(s.alts) != 1: raise Unsupported('ambiguous pointer %r' % (s,))
        return s.alts[0][1]
    @property
    def off(s):
        if len(s.alts) != 1: raise Unsupported('ambiguous pointer')
        return s.alts[0][2]
    def nonnull(s):
        a = [(c, b, o) for c, b, o in s.alts if b is not None]
        if len(a) == len(s.alts): return s
        if not a: raise Unsupported('null dereference')
        if len(a) == 1: a = [(TRUE, a[0][1], a[0][2])]
        return Ptr(a)
NULL = Ptr([(TRUE, None, I(0))])
def mkptr(b, off=0): return Ptr([(TRUE, b, I(off))])
class Fn:
    __slots__ = ('name',)
    def __init__(s, n): s.name = n
    def __repr__(s): return 'Fn(%s)' % s.name
    def __eq__(s, o): return isinstance(o, Fn) and o.name == s.name
    def __hash__(s): return hash(s.name)
class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = list(v)
    def __repr__(s): return 'Agg%r' % s.v
class _Undef:
    def __repr__(s): return 'undef'
UNDEF = _Undef()
class PtrCol:
    """array column whose elements are pointers: python function index-term -> Ptr"""
    def __init__(s, f): s.f = f

def rowcol(q, n):
    """decompose an element offset as row * n + column"""
    c, d = TM._lin(q); row = I(0); rest = {}
    for k, v in d.items():
        if k is n: row = add(row, I(v)); continue
        if k.op == 'mul' and n in k.args:
            r = list(k.args); r.remove(n); p = r[0]
            for x in r[1:]: p = mul(p, x)
            row = add(row, scale(v, p)); continue
        rest[k] = v
    if c < 0 and not rest: row = sub(row, I(1)); rest[n] = 1      # last columns: row * n + (n - c)
    return row, TM._mklin(c, rest, 'I')
def pshift(p, d):
    if isc(d) and cv(d) == 0: return p
    return Ptr([(c, b, add(o, d)) for c, b, o in p.alts])
def ptr_ite(c, p, q):
    if c is TRUE: return p
    if c is FALSE: return q
    if p is q: return p
    if p.single and q.single and p.base is q.base:
        return Ptr([(TRUE, p.base, ite(c, p.off, q.off))])
    out = {}
    for cc, src in ((c, p), (not_(c), q)):
        for g, b, o in src.alts:
            gg = and_(cc, g)
            if gg is FALSE: continue
            if b in out:
                g0, o0 = out[b]; out[b] = (or_(g0, gg), ite(gg, o, o0))
            else: out[b] = (gg, o)
    alts = [(g, b, o) for b, (g, o) in out.items()]
    if len(alts) == 1: alts = [(TRUE, alts[0][1], alts[0][2])]
    return Ptr(alts)
def members(alts):
    """a choice between members of one object, as one alternative per member"""
    out = []
    def go(c, b, o):
        if b is not None and b.kind == 'obj' and o.op == 'ite': go(and_(c, o.args[0]), b, o.args[1]); go(and_(c, not_(o.args[0])), b, o.args[2])
        else: out.append((c, b, o))
    for c, b, o in alts: go(c, b, o)
    return out
def vite(c, a, b):
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Fn) or isinstance(b, Fn):
        if a == b: return a
        raise Unsupported('function pointer merge')
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        a = toptr(a); b = toptr(b)
        return ptr_ite(c, a, b)
    if isinstance(a, Agg): return Agg([vite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, PtrCol):
        if isinstance(b, PtrCol): return PtrCol(lambda i: ptr_ite(c, a.f(i), b.f(i)))
        raise Unsupported('ptrcol merge')
    if a.sort != b.sort:
        a, b = coerce2(a, b)
    return ite(c, a, b)
def toptr(a):
    if isinstance(a, Ptr): return a
    if isinstance(a, T) and isc(a) and cv(a) == 0: return NULL
    raise Unsupported('pointer expected, got %r' % (a,))
def coerce2(a, b):
    if a.sort == 'B': a = b2i(a)
    if b.sort == 'B': b = b2i(b)
    if a.sort != b.sort:
        raise Unsupported('sort mismatch %s/%s' % (a.sort, b.sort))
    return a, b
def b2i(b): return ite(b, I(1), I(0)) if b.sort == 'B' else b
def tobool(v):
    if v.sort == 'B': return v
    return not_(eq(v, I(0)))
def ptr_eq(p, q):
    r = []
    for c, b, o in p.alts:
        for d, b2, o2 in q.alts:
            if b is b2: r.append(and_(c, d, eq(o, o2) if b is not None else TRUE))
    return or_(*r) if r else FALSE

class Content:
    __slots__ = ('cells', 'cols', 'zero', 'stride')
    def __init__(s): s.cells = {}; s.cols = {}; s.zero = None; s.stride = None
    def copy(s):
        c = Content(); c.cells = dict(s.cells); c.cols = dict(s.cols); c.zero = s.zero; c.stride = s.stride; return c

EMPTYC = Content()
class State:
    def __init__(s): s.mem = {}; s.pc = (); s.own = set(); s.trace = ()
    def copy(s):
        n = State(); n.mem = dict(s.mem); n.pc = s.pc; n.trace = s.trace
        s.own = set()
        return n
    def rd(s, b):
        c = s.mem.get(b)
        if c is None:
            c = Content(); s.mem[b] = c
        return c
    def wr(s, b):
        c = s.rd(b)
        if b not in s.own:
            c = c.copy(); s.mem[b] = c; s.own.add(b)
        return c
    def assume(s, t):
        if t is TRUE: return
        s.pc = s.pc + ((t,) if t.op != 'and' else t.args)

def szof(ex, ty, mod): return mod.size(ty)

class Executor:
    def __init__(s, modules, contracts=None, intrinsics=None):
        s.havoc_loops = None; s.allrets = None; s.apart = False
        s.mods = modules
        s.fmod = {}
        for m in modules:
            for f in m.ftxt: s.fmod.setdefault(f, m)
        s.contracts = contracts or {}     # demangled name -> handler(ctx)
        s.patterns = []                    # (regex, handler)
        s.globs = {}
        s.obl = []                         # (kind, pc tuple, goal, where)
        s.dem = {}
        s.inline_stack = []
        s.maxdepth = 60
        s.inlined = set(); s.applied = {}; s.loops = 0; s.loop_obl = 0
        s.check_bounds = True
        s.noinline = set()
        s.steps = 0
        s.unroll = 0; s.truncated = 0
        s.assumed_asserts = True
        s.fcache = {}
        s.quiet_obl = 0
        s.force_inline = set()
        s.classmods = {}
    def demangle(s, n):
        d = s.dem.get(n)
        if d is None:
            if not s.dem:
                names = set()
                for m in s.mods: names.update(m.ftxt); names.update(m.decl)
                s.dem.update(ir.demangle(names))
                d = s.dem.get(n)
            if d is None:
                d = ir.demangle([n])[n]; s.dem[n] = d
        return d
    # ------------------------------------------------------------ memory
    def gblock(s, name):
        b = s.globs.get(name)
        if b is None:
            b = Block('@' + name, 'global'); s.globs[name] = b
            for m in s.mods:
                if name in m.gtxt:
                    g = m.glob(name)
                    if g is not None and g[1] is not None:
                        b.const = (m, g)
                        b.size = m.size(g[0])
                        break
        return b
    def const_at(s, b, off, ty, mod):
        """read constant global"""
        m, (t, v, isconst) = b.const
        while True:
            t = m.res(t)
            if v is None: return None
            if v[0] == 'zero':
                return s.zero_of(ty)
            if t[0] == 'arr':
                es = m.size(t[2]); k = off // es
                if v[0] == 'cstr':
                    return I(cbytes(v[1])[off]) if off < len(cbytes(v[1])) else None
                if v[0] != 'agg': return None
                t, v = v[1][k]; off -= k * es
                continue
            if t[0] == 'st':
                offs = m.offsets(t); k = max(i for i, o in enumerate(offs) if o <= off)
                t, v2 = v[1][k]; off -= offs[k]; v = v2
                continue
            if off != 0: return None
            return s.constval(t, v, m)
    def zero_of(s, ty):
        if ty[0] == 'i': return I(0) if ty[1] != 1 else FALSE
        if ty[0] == 'f': return R(0)
        if ty[0] == 'ptr': return NULL
        raise Unsupported('zero of %r' % (ty,))
    def fresh_of(s, ty, name):
        if ty[0] == 'i': return fresh(name, 'B') if ty[1] == 1 else fresh(name, 'I')
        if ty[0] == 'f': return fresh(name, 'R')
        raise Unsupported('fresh %r (%s)' % (ty, name))
    def conv(s, v, ty):
        """adapt stored value to load type"""
        if v is UNDEF: return v
        if ty[0] == 'ptr':
            if isinstance(v, (Ptr, Fn)): return v
            return toptr(v)
        if isinstance(v, T):
            if ty[0] == 'i':
                if v.sort == 'B': return v if ty[1] == 1 else b2i(v)
                if v.sort == 'I': return v
            if ty[0] == 'f' and v.sort == 'R': return v
            if ty[0] == 'f' and v.sort == 'I' and isc(v) and cv(v) == 0: return R(0)
            if ty[0] == 'i' and v.sort == 'R' and isc(v) and cv(v) == 0: return I(0)
        if ty[0] == 'i' and isinstance(v, Ptr): return v   # pointer as integer
        raise Unsupported('type pun %r as %r' % (v, ty))
    def split(s, b, off, st):
        """(q, r) with off = stride*q + r"""
        stride = b.stride or st.rd(b).stride
        if b.rowlen is not None:
            q, r = s.split1d(b, off, 8)
            return rowcol(q, b.rowlen), r
        if off.op == 'c': c, d = off.args[0], {}
        elif off.op == 'lin': c, d = off.args[0], dict(off.args[1])
        else: c, d = 0, {off: 1}
        if stride is None:
            if not d: return None, c
            g = 0
            for v in d.values(): g = math.gcd(g, v)
            s.adopt(b, g, st); stride = g
        for v in d.values():
            if v % stride: raise Unsupported('unaligned access %r in %r stride %d' % (off, b, stride))
        return TM._mklin(c // stride, {k: v // stride for k, v in d.items()}, 'I'), c % stride
    def split1d(s, b, off, stride):
        c, d = TM._lin(off)
        for v in d.values():
            if v % stride: raise Unsupported('unaligned access %r in %r' % (off, b))
        return TM._mklin(c // stride, {k: v // stride for k, v in d.items()}, 'I'), c % stride
    def inb(s, b, q, cnt=None):
        """index (or cnt consecutive indices) inside the block"""
        if isinstance(q, tuple):
            i, j = q
            e = and_(le(I(0), i), lt(i, b.length)) if b.length is not None else TRUE
            return and_(e, le(I(0), j), lt(j, b.rowlen) if cnt is None else le(add(j, cnt), b.rowlen))
        if b.length is None: return TRUE
        return and_(le(I(0), q), lt(q, b.length) if cnt is None else le(add(q, cnt), b.length))
    def reshape(s, b, n, st):
        """treat a fresh block of rows * n doubles as a matrix"""
        if b.kind != 'heap' or b.rowlen is not None or not isinstance(getattr(b, 'bytes', None), T) or st.rd(b).cells or st.rd(b).cols: return False
        r, c = rowcol(idiv(b.bytes, I(8)), n)
        if not (isc(c) and cv(c) == 0): return False
        b.rowlen = n; b.length = r; b.stride = 8; return True
    def adopt(s, b, stride, st):
        if b.rowlen is not None: raise Unsupported('adopt 2d')
        c = st.wr(b); c.stride = stride
        if b.length is None and getattr(b, 'bytes', None) is not None:
            b.length = idiv(b.bytes, I(stride)) if isinstance(b.bytes, T) else I(b.bytes // stride)
        for o, (sz, v) in sorted(c.cells.items()):
            f = o % stride; q = o // stride
            if not isinstance(v, T): 
                if isinstance(v, Ptr):
                    old = c.cols.get(f); oldf = old[1].f if old else None
                    def mk(q=q, v=v, oldf=oldf):
                        return PtrCol(lambda i: ptr_ite(eq(i, I(q)), v, oldf(i)) if oldf else v)
                    c.cols[f] = (sz, mk()); continue
                continue
            if f not in c.cols:
                c.cols[f] = (sz, asym('%s@%d' % (b.name, b.id), v.sort))
            c.cols[f] = (sz, arr_store(c.cols[f][1], I(q), v))
        c.cells = {}
        if c.zero: raise Unsupported('stride after memset')
    def col(s, st, b, f, ty, sz):
        c = st.mem.get(b)
        if c is not None and f in c.cols: return c.cols[f][1]
        if f in b.lazy_cols: return b.lazy_cols[f][1]
        if ty[0] == 'ptr':
            mk = getattr(b, 'ptrcol', None)
            if mk is None: raise Unsupported('pointer array %r has no model' % b)
            A = mk(f)
        else:
            A = asym('%s#%d.%d' % (b.name, b.id, f), 'R' if ty[0] == 'f' else 'I', 1 if b.rowlen is None else 2)
        b.lazy_cols[f] = (sz, A)
        return A
    def lazycell(s, b, off, ty, sz):
        e = b.lazy_cells.get(off)
        if e is not None: return e
        v = None
        if b.kind in ('stack', 'heap'):
            # uninitialised memory
            if ty[0] == 'ptr': v = UNDEF
            else: v = s.fresh_of(ty, 'uninit_%s_%d' % (b.name, off)) 
        elif b.const is not None and b.const[1][2]:
            v = s.const_at(b, off, ty, None)
        elif b.const is not None and ty[0] == 'ptr':
            v = s.const_at(b, off, ty, None)
        if v is None:
            mk = getattr(b, 'mkcell', None)
            if mk is not None: v = mk(off, ty)
        if v is None:
            nm = '%s.+%d' % (b.name, off)
            td = None
            if b.members:
                for mn, (mo, ms, mt) in b.members.items():
                    if mo == off: nm = '%s.%s' % (b.name, mn); td = mt
            if ty[0] == 'ptr': raise Unsupported('uninitialised pointer cell ' + nm)
            if td == ('bool',): v = sym(nm, 'B')
            else: v = sym(nm, 'R' if ty[0] == 'f' else ('B' if ty == ('i', 1) else 'I'))
        b.lazy_cells[off] = (sz, v)
        return b.lazy_cells[off]
    def load1(s, st, b, off, ty, mod):
        sz = mod.size(ty)
        if b.kind == 'global' and b.const is not None and b.const[1][2] and isc(off) and off.op == 'c':
            v = s.const_at(b, cv(off), ty, mod)
            if v is None: raise Unsupported('const global read %r+%r' % (b, off))
            return v
        q, r = s.split(b, off, st)
        if q is None:
            c = st.mem.get(b)
            if c is not None:
                e = c.cells.get(r)
                if e is not None:
                    if e[0] != sz:
                        # i1/i8 and the like
                        if isinstance(e[1], T) and isc(e[1]) and cv(e[1]) == 0: return s.zero_of(ty)
                        if ty[0] == 'i' and e[0] > sz and isinstance(e[1], T) and isc(e[1]) and e[1].sort == 'I':
                            return I((cv(e[1]) & ((1 << (8 * sz)) - 1)))
                        if e[0] < sz and ty[0] == 'i':
                            return s.load_multi(st, b, r, sz)
                        raise Unsupported('cell size mismatch %r+%d: %d vs %d' % (b, r, e[0], sz))
                    return s.conv(e[1], ty)
                if c.zero:
                    for zo, zl in c.zero:
                        if zo <= r < zo + zl: return s.zero_of(ty)
            e = s.lazycell(b, r, ty, sz)
            if e[0] != sz: raise Unsupported('lazy cell size mismatch %r+%d' % (b, r))
            return s.conv(e[1], ty)
        # array element
        if s.check_bounds and b.length is not None:
            s.oblige('bounds', st, s.inb(b, q), 'read %s' % b.name, b.rowlen is not None)
        A = s.col(st, b, r, ty, sz)
        if isinstance(A, PtrCol): return A.f(q)
        v = sel(A, *q) if isinstance(q, tuple) else sel(A, q)
        return s.conv(v, ty)
    def load_multi(s, st, b, r, sz):
        """little-endian assembly of an int from constant sub-cells (zero only)"""
        c = st.mem.get(b); o = r; 
        parts = []
        while o < r + sz:
            e = c.cells.get(o)
            if e is None: e = (1, I(0)); 
            parts.append((o, e)); o += e[0]
        # keep as an opaque bundle
        return Bundle([(o - r, e) for o, e in parts], sz)
    def store1(s, st, b, off, v, ty, mod, cond=TRUE):
        sz = mod.size(ty)
        q, r = s.split(b, off, st)
        if isinstance(v, Bundle):
            if q is not None: raise Unsupported('bundle store')
            for o, e in v.parts:
                c = st.wr(b); c.cells[r + o] = e
            return
        if q is None:
            if cond is not TRUE:
                old = s.load1(st, b, off, ty, mod)
                v = vite(cond, v, old)
            c = st.wr(b)
            # overlapping smaller cells
            for o in list(c.cells):
                if r < o < r + sz: del c.cells[o]
            c.cells[r] = (sz, v)
            return
        if s.check_bounds and b.length is not None:
            s.oblige('bounds', st, implies(cond, s.inb(b, q)), 'write %s' % b.name, b.rowlen is not None)
        if v is UNDEF: v = s.fresh_of(ty, 'undef')
        c = st.wr(b)
        if isinstance(v, (Ptr, Fn)):
            try: old = s.col(st, b, r, ('ptr',), sz)
            except Unsupported: old = None
            if old is None or not isinstance(old, PtrCol):
                c.cols[r] = (sz, PtrCol(lambda i, q=q, v=v: v))
                c.cols[r][1].partial = True
            else:
                of = old.f
                c.cols[r] = (sz, PtrCol(lambda i, q=q, v=v, of=of: ptr_ite(and_(cond, eq(i, q)), v, of(i))))
            return
        A = s.col(st, b, r, ty, sz)
        es = elem_sort(A)
        if v.sort != es:
            if es == 'I' and v.sort == 'B': v = b2i(v)
            elif es == 'B' and v.sort == 'I': v = tobool(v)
            else: raise Unsupported('array elem sort %s vs %s' % (es, v.sort))
        if isinstance(q, tuple): c.cols[r] = (sz, alamn(2, lambda i, j: ite(and_(cond, eq(i, q[0]), eq(j, q[1])), v, sel(A, i, j)))); return
        c.cols[r] = (sz, s.ncol(b, alam(lambda j: ite(and_(cond, eq(j, q)), v, sel(A, j)))))
    def ncol(s, b, A):
        if TM.EXPAND[0] and b.length is not None and isc(b.length) and A.op != 'carr':
            return carr([sel(A, I(k)) for k in range(cv(b.length))], elem_sort(A))
        return A
    def load(s, st, p, ty, mod):
        rt = mod.res(ty)
        if rt[0] in ('st', 'arr'):
            offs = mod.offsets(rt) if rt[0] == 'st' else [mod.size(rt[2]) * k for k in range(rt[1])]
            ets = rt[1] if rt[0] == 'st' else [rt[2]] * rt[1]
            return Agg([s.load(st, pshift(p, I(o)), e, mod) for o, e in zip(offs, ets)])
        if rt[0] == 'vec': raise Unsupported('vector type')
        p = toptr(p).nonnull()
        v = None
        for c, b, o in reversed(members(p.alts)):
            x = s.load1(st, b, o, rt, mod)
            v = x if v is None else vite(c, x, v)
        return v
    def store(s, st, p, v, ty, mod):
        rt = mod.res(ty)
        if rt[0] in ('st', 'arr'):
            offs = mod.offsets(rt) if rt[0] == 'st' else [mod.size(rt[2]) * k for k in range(rt[1])]
            ets = rt[1] if rt[0] == 'st' else [rt[2]] * rt[1]
            if v is UNDEF: return
            for o, e, x in zip(offs, ets, v.v): s.store(st, pshift(p, I(o)), x, e, mod)
            return
        p = toptr(p).nonnull(); alts = members(p.alts)
        if len(alts) == 1: s.store1(st, p.base, p.off, v, rt, mod)
        else:
            for c, b, o in alts: s.store1(st, b, o, v, rt, mod, c)
    def alloc(s, st, name, kind='heap', size=None, **kw):
        b = Block(name, kind, size, **kw); st.mem[b] = Content(); st.own.add(b); return b
    def memcpy(s, st, d, src, n, mod):
        if isc(n) and cv(n) == 0: return
        d = toptr(d).nonnull(); src = toptr(src).nonnull()
        for gd, db, do in d.alts:
            for gs, sb, so in src.alts:
                g = and_(gd, gs)
                if g is not FALSE: s.memcpy1(st, db, do, sb, so, n, g)
    def memcpy1(s, st, db, do, sb, so, n, gd):
        if sb.const is not None and isc(n) and isc(so):
            dst = s.dststride(st, db)
            if dst is None and isc(do) and gd is TRUE:
                m, g = sb.const
                for (o, ty) in flat(m, g[0]):
                    if cv(so) <= o < cv(so) + cv(n):
                        v = s.const_at(sb, o, ty, m)
                        if v is None: raise Unsupported('memcpy const')
                        s.store1(st, db, add(do, I(o - cv(so))), v, ty, m)
                return
        st1 = s.dststride(st, db); st2 = s.dststride(st, sb)
        stride = st1 or st2
        if stride is None:
            if isc(n) and isc(so) and isc(do):
                if gd is not TRUE: raise Unsupported('memcpy through ambiguous pointer')
                a, e, w = cv(so), cv(so) + cv(n), cv(do) - cv(so)
                cs = st.rd(sb); cells = dict(sb.lazy_cells); cells.update(cs.cells)
                if sb.members and not (sb.kind in ('stack', 'heap')):
                    for mn, (mo, ms, mt) in sb.members.items():
                        if a <= mo < e and mo not in cells and mt[0] in ('int', 'dbl', 'bool'):
                            cells[mo] = s.lazycell(sb, mo, {'int': ('i', ms * 8), 'dbl': DBLT, 'bool': ('i', 8)}[mt[0]], ms)
                cd = st.wr(db)
                for o in list(cd.cells):
                    if cv(do) <= o < cv(do) + cv(n): del cd.cells[o]
                for o, (z, v) in cells.items():
                    if a <= o < e: cd.cells[o + w] = (z, v)
                if cs.zero:
                    for zo, zl in cs.zero:
                        lo, hi = max(zo, a), min(zo + zl, e)
                        if lo < hi: cd.zero = (cd.zero or ()) + ((lo + w, hi - lo),)
                return
            if so.op == 'c' and do.op == 'c':
                g = 0
                for v in TM._lin(n)[1].values(): g = math.gcd(g, v)
                stride = g
            else: raise Unsupported('memcpy of raw memory')
        for b, x, o in ((db, st1, sb), (sb, st2, db)):
            if x is None:
                if o.rowlen is not None and rowcol(idiv(n, I(8)), o.rowlen)[1] is I(0) and s.reshape(b, o.rowlen, st): continue
                s.adopt(b, stride, st)
        st1 = s.dststride(st, db); st2 = s.dststride(st, sb)
        if st1 != st2: raise Unsupported('memcpy stride mismatch')
        qd, rd_ = s.split(db, do, st); qs, rs = s.split(sb, so, st)
        cnt = idiv(n, I(stride))
        if rd_ or rs: raise Unsupported('memcpy into field')
        if isinstance(qd, tuple) or isinstance(qs, tuple): return s.copy2d(st, db, qd, sb, qs, cnt, lambda v, old: ite(gd, v, old), gd)
        if s.check_bounds:
            for b, q in ((db, qd), (sb, qs)):
                if b.length is not None:
                    s.oblige('bounds', st, or_(not_(gd), le(cnt, I(0)), and_(le(I(0), q), le(add(q, cnt), b.length))), 'memcpy %s' % b.name)
        cs = st.rd(sb); fields = dict(sb.lazy_cols); fields.update(cs.cols)
        fd = dict(db.lazy_cols); fd.update(st.rd(db).cols)
        for f in set(fields) | set(fd):
            sz, smp = fields.get(f) or fd.get(f)
            ty = ('ptr',) if isinstance(smp, PtrCol) else (('f', 'double') if elem_sort(smp) == 'R' else ('i', sz * 8))
            A = s.col(st, sb, f, ty, sz); D = s.col(st, db, f, ty, sz)
            if isinstance(A, PtrCol): raise Unsupported('memcpy of pointers')
            c = st.wr(db)
            c.cols[f] = (sz, s.ncol(db, alam(lambda j: ite(and_(gd, le(qd, j), lt(j, add(qd, cnt))), sel(A, add(sub(j, qd), qs)), sel(D, j)))))
        if not fields and not fd:
            # decide by common usage: doubles for stride 8, ints for stride 4
            ty = ('f', 'double') if stride == 8 else ('i', stride * 8)
            A = s.col(st, sb, 0, ty, stride); D = s.col(st, db, 0, ty, stride); c = st.wr(db)
            c.cols[0] = (stride, s.ncol(db, alam(lambda j: ite(and_(gd, le(qd, j), lt(j, add(qd, cnt))), sel(A, add(sub(j, qd), qs)), sel(D, j)))))
    def samelen(s, st, a, b, gd=TRUE):
        return a is b or bool(prove(list(getattr(s, 'facts', ())) + list(st.pc) + [gd], eq(a, b), timeout=500))
    def copy2d(s, st, db, qd, sb, qs, cnt, f, gd=TRUE):
        """dst[qd + k] := f(src[qs + k], dst[qd + k]) for 0 <= k < cnt, with at least one two-dimensional side"""
        two = [(b, q) for b, q in ((db, qd), (sb, qs)) if isinstance(q, tuple)]
        n = two[0][0].rowlen
        rows, rem = rowcol(cnt, n)
        full = isc(rem) and cv(rem) == 0 and not (isc(rows) and cv(rows) == 0) and all(isc(q[1]) and cv(q[1]) == 0 and s.samelen(st, b.rowlen, n, gd) for b, q in two)
        D = s.col(st, db, 0, DBLT, 8); A = s.col(st, sb, 0, DBLT, 8) if sb is not None else None
        c = st.wr(db)
        for b, q in ((db, qd), (sb, qs)):
            if b is None or not s.check_bounds: continue
            if isinstance(q, tuple) and full:
                if b.length is not None: s.oblige('bounds', st, or_(not_(gd), le(mul(rows, n), I(0)), and_(le(I(0), q[0]), le(add(q[0], rows), b.length))), 'rows of %s' % b.name, True)
            else: s.oblige('bounds', st, or_(not_(gd), le(cnt, I(0)), s.inb(b, q, cnt)), 'range of %s' % b.name, True)
        if not isinstance(qd, tuple):
            if full and not (isc(rows) and cv(rows) == 1): raise Unsupported('flat copy of a matrix')
            c.cols[0] = (8, s.ncol(db, alam(lambda j: ite(and_(le(qd, j), lt(j, add(qd, cnt))), f(sel(A, qs[0], add(qs[1], sub(j, qd))), sel(D, j)), sel(D, j))))); return
        r0, c0 = qd
        def g(i, j):
            if full:
                rg = and_(eq(i, r0) if isc(rows) and cv(rows) == 1 else and_(le(r0, i), lt(i, add(r0, rows))), le(I(0), j), lt(j, n)); k = None
                if A is None: v = None
                elif isinstance(qs, tuple): v = sel(A, add(qs[0], sub(i, r0)), j)
                else: v = sel(A, add(qs, add(mul(sub(i, r0), n), j)))
            else:
                rg = and_(eq(i, r0), le(c0, j), lt(j, add(c0, cnt))); k = sub(j, c0)
                v = None if A is None else sel(A, qs[0], add(qs[1], k)) if isinstance(qs, tuple) else sel(A, add(qs, k))
            return ite(rg, f(v, sel(D, i, j)), sel(D, i, j))
        c.cols[0] = (8, alamn(2, g))
    def dststride(s, st, b): return b.stride or st.rd(b).stride
    def memset(s, st, d, val, n, mod):
        if not isc(val): raise Unsupported('memset value')
        d = toptr(d).nonnull(); b, o = d.base, d.off
        stride = s.dststride(st, b)
        if cv(val) != 0: raise Unsupported('memset nonzero')
        if stride is None and isc(n) and isc(o):
            c = st.wr(b); a = cv(o); e = a + cv(n)
            for k in list(c.cells):
                if a <= k < e: del c.cells[k]
            c.zero = (c.zero or ()) + ((a, cv(n)),)
            return
        if stride is None:
            g = 0
            for v in TM._lin(n)[1].values(): g = math.gcd(g, v)
            s.adopt(b, g, st); stride = g
        q, r = s.split(b, o, st); cnt = idiv(n, I(stride))
        if isinstance(q, tuple): return s.copy2d(st, b, q, None, None, cnt, lambda v, old: R(0))
        if s.check_bounds and b.length is not None:
            s.oblige('bounds', st, or_(le(cnt, I(0)), and_(le(I(0), q), le(add(q, cnt), b.length))), 'memset %s' % b.name)
        fd = dict(b.lazy_cols); fd.update(st.rd(b).cols)
        if not fd: fd = {0: (stride, s.col(st, b, 0, ('f', 'double') if stride == 8 else ('i', stride * 8), stride))}
        for f, (sz, A) in fd.items():
            if isinstance(A, PtrCol): raise Unsupported('memset pointers')
            z = const(0, elem_sort(A)); c = st.wr(b)
            c.cols[f] = (sz, s.ncol(b, alam(lambda j: ite(and_(le(q, j), lt(j, add(q, cnt))), z, sel(A, j)))))
    def cstr(s, p):
        p = toptr(p)
        b = p.base
        if b.const is None: return None
        v = b.const[1][1]
        if v[0] == 'zero': return ''
        if v[0] != 'cstr': return None
        by = cbytes(v[1])[cv(p.off):]
        return bytes(by).split(b'\0')[0].decode('latin1')
    # ------------------------------------------------------------ obligations
    def oblige(s, kind, st, goal, where, two=False):
        if goal is TRUE or s.quiet_obl: return
        if kind == 'bounds' and two: kind = 'bounds2'
        fr = s.inline_stack[-1] if s.inline_stack else '?'
        s.obl.append([kind, st.pc, goal, '%s in %s' % (where, fr)])
    # ------------------------------------------------------------ values
    def constval(s, ty, v, mod):
        k = v[0]
        if k == 'int': return const(bool(v[1] & 1), 'B') if ty == ('i', 1) else I(v[1])
        if k == 'fp':
            x = v[1]
            if isinstance(x, tuple):
                if x[0] == 'inf': return scale(x[1], sym('inf', 'R'))
                return sym('nan', 'R')
            return const(x, 'R')
        if k == 'null': return NULL
        if k == 'undef':
            t = mod.res(ty)
            if t[0] in ('st',): return Agg([UNDEF] * len(t[1]))
            return UNDEF
        if k == 'zero':
            t = mod.res(ty)
            if t[0] == 'st': return Agg([s.constval(e, ('zero',), mod) for e in t[1]])
            if t[0] == 'arr': return Agg([s.constval(t[2], ('zero',), mod) for _ in range(t[1])])
            return s.zero_of(t)
        if k == 'glo':
            if v[1] in s.fmod or any(v[1] in m.decl for m in s.mods): return Fn(v[1])
            return mkptr(s.gblock(v[1]))
        if k == 'cgep':
            p = s.constval(PTR_, v[2][0][1], mod)
            if isinstance(p, Fn): return p
            return s.gep(mod, v[1], p, [(t, s.constval(t, x, mod)) for t, x in v[2][1:]])
        if k == 'ccast':
            return s.constval(v[2], v[3], mod)
        if k == 'agg':
            return Agg([s.constval(t, x, mod) for t, x in v[1]])
        raise Unsupported('const %r' % (v,))
    def val(s, fr, tv):
        ty, v = tv
        if v[0] == 'loc':
            x = fr.env.get(v[1])
            if x is None: raise Unsupported('undefined %s in %s' % (v[1], fr.f.name))
            return x
        return s.constval(ty, v, fr.f.mod)
    def gep(s, mod, ty, p, idx):
        off = I(0)
        t = ty
        for k, (it, iv) in enumerate(idx):
            if not isinstance(iv, T): raise Unsupported('gep index')
            if iv.sort == 'B': iv = b2i(iv)
            if k == 0: off = add(off, scale(mod.size(t), iv)); continue
            rt = mod.res(t)
            if rt[0] == 'st':
                off = add(off, I(mod.offsets(rt)[cv(iv)])); t = rt[1][cv(iv)]
            elif rt[0] in ('arr', 'vec'):
                off = add(off, scale(mod.size(rt[2]), iv)); t = rt[2]
            else: raise Unsupported('gep into %r' % (rt,))
        return pshift(toptr(p), off)
    # ------------------------------------------------------------ functions
    def find(s, name):
        m = s.fmod.get(name)
        return m.func(name) if m else None
    def call_func(s, f, args, st):
        """inline f; returns (ret, state) or (None,None) when it never returns"""
        if len(s.inline_stack) > s.maxdepth: raise Unsupported('inline depth')
        if s.inline_stack.count(f.name) > 1: raise Unsupported('recursion ' + f.name)
        s.inline_stack.append(f.name)
        fr = Frame(f); 
        for (t, n), a in zip(f.params, args): fr.env[n] = a
        try:
            exits, latches, rets = s.region(fr, f.entry, None, st, first=True)
        finally:
            s.inline_stack.pop()
        if not rets: return None, None
        if s.havoc_loops and f.name == s.havoc_loops[0] and not s.inline_stack: s.allrets = [x for x in rets if FALSE not in x[1].pc]
        r, st2 = s.merge_rets([(v, q.copy()) for v, q in rets] if s.allrets else rets)
        return r, st2
    def merge_rets(s, rets):
        r, st = rets[0]
        for r2, st2 in rets[1:]:
            c, st = s.merge2(st, st2)
            if r is not None: r = vite(c, r, r2)
        return r, st
    def merge2(s, a, b):
        """returns (cond that we came from a, merged state)"""
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]: n += 1
        ra, rb = pa[n:], pb[n:]
        m = State(); m.trace = a.trace if len(a.trace) >= len(b.trace) else b.trace
        ca, cb = and_(*ra), and_(*rb)
        if ra and rb and not_(ra[0]) is rb[0]: c = ra[0]
        elif ra and rb and ca.op != 'c' :
            # find a literal of a whose negation is in b
            c = None
            sb = set(rb)
            for x in ra:
                if not_(x) in sb: c = x; break
            if c is None: c = ca
        else: c = ca if ra else not_(cb)
        j = or_(ca, cb)
        # simplify  (c & x) | (!c & y)  when one side is just the literal
        m.pc = pa[:n] + ((j,) if j is not TRUE else ())
        if a.mem is b.mem: m.mem = dict(a.mem); return c, m
        mem = {}
        for blk, x in a.mem.items():
            y = b.mem.get(blk)
            if y is None and blk.kind in ('obj', 'arr', 'global'): y = EMPTYC
            if y is None or y is x: mem[blk] = x; continue
            mem[blk] = s.merge_content(blk, c, x, y)
        for blk, y in b.mem.items():
            if blk not in mem: mem[blk] = s.merge_content(blk, c, EMPTYC, y) if blk.kind in ('obj', 'arr', 'global') else y
        m.mem = mem
        return c, m
    def merge_content(s, blk, c, x, y):
        z = Content(); z.stride = x.stride or y.stride
        if x.stride != y.stride:
            # one side untouched: adopt
            if x.stride is None and x.cells: x = s._adopt_content(blk, x, y.stride)
            if y.stride is None and y.cells: y = s._adopt_content(blk, y, x.stride)
        z.zero = x.zero if x.zero == y.zero else None
        for o in set(x.cells) | set(y.cells):
            ex, ey = x.cells.get(o), y.cells.get(o)
            if ex is ey: z.cells[o] = ex; continue
            e0 = ex or ey
            def dflt(cont):
                if cont.zero and any(zo <= o < zo + zl for zo, zl in cont.zero):
                    v = e0[1]
                    return (e0[0], NULL if isinstance(v, Ptr) else const(0, v.sort))
                return None
            if ex is None: ex = dflt(x) or s.initcell(blk, o, ey)
            if ey is None: ey = dflt(y) or s.initcell(blk, o, ex)
            if ex is None or ey is None: continue
            if ex[0] != ey[0]:
                continue
            try: z.cells[o] = (ex[0], vite(c, ex[1], ey[1]))
            except Unsupported:
                z.cells[o] = (ex[0], UNDEF)
        for f in set(x.cols) | set(y.cols):
            fx, fy = x.cols.get(f), y.cols.get(f)
            if fx is fy: z.cols[f] = fx; continue
            if fx is None: fx = s.initcol(blk, f, fy)
            if fy is None: fy = s.initcol(blk, f, fx)
            if isinstance(fx[1], PtrCol) or isinstance(fy[1], PtrCol):
                z.cols[f] = (fx[0], vite(c, fx[1], fy[1]))
            else: z.cols[f] = (fx[0], s.ncol(blk, arr_ite(c, fx[1], fy[1])))
        return z
    def _adopt_content(s, blk, x, stride):
        st = State(); st.mem[blk] = x; s.adopt(blk, stride, st); return st.mem[blk]
    def initcell(s, blk, o, like):
        e = blk.lazy_cells.get(o)
        if e is not None: return e
        v = like[1]
        ty = ('ptr',) if isinstance(v, (Ptr, Fn)) else ('f', 'double') if isinstance(v, T) and v.sort == 'R' else ('i', 8 * like[0])
        if v is UNDEF: return (like[0], UNDEF)
        try: return s.lazycell(blk, o, ty, like[0])
        except Unsupported: return (like[0], UNDEF)
    def initcol(s, blk, f, like):
        if isinstance(like[1], PtrCol): ty = ('ptr',)
        else: ty = ('f', 'double') if elem_sort(like[1]) == 'R' else ('i', 8 * like[0])
        st = State()
        return (like[0], s.col(st, blk, f, ty, like[0]))

    # ------------------------------------------------------------ regions
    def info(s, f):
        i = s.fcache.get(f.name)
        if i is None: i = LoopInfo(f); s.fcache[f.name] = i
        return i
    def region(s, fr, header, body, st, first=False, header_env=True, inc0=None):
        """execute blocks of `body` (None = whole function) from header.
        returns exits [(frm,to,st,env)], latches [(frm,st,env)], rets [(val,st)]"""
        info = s.info(fr.f)
        exits, latches, rets = [], [], []
        incoming = inc0 or {header: [(None, st, fr.env)]}
        order = info.rpo if body is None else [b for b in info.rpo if b in body]
        f = fr.f
        for bn in order:
            inc = incoming.pop(bn, None)
            if not inc: continue
            blk = f.blocks[bn]
            st, env = s.join(f, blk, inc, skip_phi=(bn == header and not first) or inc[0][0] is None)
            if bn != header and bn in info.loops and (body is None or info.loops[bn] <= body) or (bn == header and first and bn in info.loops):
                L = info.loops[bn]
                ex, rr = s.loop(fr, bn, L, st, env)
                rets += rr
                if s.havoc_loops and body is None and fr.f.name == s.havoc_loops[0]:
                    # behind a loop with stated invariants every way of leaving it is followed on its own
                    s.apart = True
                    for frm, to, st2, env2 in ex:
                        if FALSE not in st2.pc: rets += s.region(fr, header, None, None, inc0={to: [(frm, st2, env2)]})[2]
                    continue
                for frm, to, st2, env2 in ex:
                    if body is not None and to not in body: exits.append((frm, to, st2, env2))
                    elif to == header and not first: latches.append((frm, st2, env2))
                    else: incoming.setdefault(to, []).append((frm, st2, env2))
                continue
            fr.env = env
            outs = s.block(fr, blk, st); here = fr.env
            for to, st2 in outs:
                if to == 'ret': rets.append(st2); continue
                env2 = here if len(outs) == 1 else dict(here)
                if s.apart and body is None and len(outs) > 1 and fr.f.name == s.havoc_loops[0]:
                    rets += s.region(fr, header, None, None, inc0={to: [(bn, st2, env2)]})[2]; continue
                if body is not None and to not in body: exits.append((bn, to, st2, env2))
                elif to == header and not first: latches.append((bn, st2, env2))
                else: incoming.setdefault(to, []).append((bn, st2, env2))
        return exits, latches, rets
    def phis(s, f, blk, frm, env, only=None):
        vals = {}
        for ins in blk.ins:
            if ins.op != 'phi': break
            for v, b in ins.x:
                if b == frm:
                    if v[0] == 'loc': vals[ins.res] = env.get(v[1], UNDEF)
                    else: vals[ins.res] = s.constval(ins.ty, v, f.mod)
                    break
            else: raise Unsupported('phi edge')
        return vals
    def join(s, f, blk, inc, skip_phi=False):
        items = []
        for frm, st, env in inc:
            if not skip_phi and blk.ins and blk.ins[0].op == 'phi':
                pv = s.phis(f, blk, frm, env)
                env = dict(env); env.update(pv)
            items.append((st, env))
        st, env = items[0]
        for st2, env2 in items[1:]:
            c, m = s.merge2(st, st2)
            ne = {}
            for k, v in env.items():
                w = env2.get(k)
                if w is None: continue
                if v is w: ne[k] = v; continue
                try: ne[k] = vite(c, v, w)
                except Unsupported: pass
                except TypeError: pass
            st, env = m, ne
        if len(inc) == 1: env = env if not skip_phi else env
        return st, env
    def block(s, fr, blk, st):
        """returns list of (target, state); ('ret', (val, state))"""
        f = fr.f; mod = f.mod; env = fr.env
        for ins in blk.ins:
            s.steps += 1
            op = ins.op
            if op == 'phi': continue
            if op == 'load':
                env[ins.res] = s.load(st, s.val(fr, ins.a[0]), ins.ty, mod)
            elif op == 'store':
                v = s.val(fr, ins.a[0])
                s.store(st, s.val(fr, ins.a[1]), v, ins.a[0][0], mod)
            elif op == 'getelementptr':
                env[ins.res] = s.gep(mod, ins.x, s.val(fr, ins.a[0]), [(t, s.val(fr, (t, v))) for t, v in ins.a[1:]])
            elif op == 'alloca':
                cnt = s.val(fr, ins.a[0]) if ins.a else None; z = mod.size(ins.x)
                if cnt is None or isc(cnt): b = s.alloc(st, 'local%s' % ins.res, 'stack', z * (cv(cnt) if cnt is not None else 1))
                else: b = s.alloc(st, 'local%s' % ins.res, 'stack'); b.bytes = scale(z, cnt)
                if cnt is not None and isc(cnt) and cv(cnt) != 1: b.bytes = I(z * cv(cnt))
                env[ins.res] = mkptr(b)
            elif op in ('call', 'invoke'):
                fr.cur = ins
                r, st2 = s.call(fr, ins, st)
                if st2 is None: return []
                st = st2
                if ins.res is not None: env[ins.res] = r if r is not None else UNDEF
                if op == 'invoke': return [(ins.x['normal'], st)]
            elif op == 'br':
                if not ins.a: return [(ins.x[0], st)]
                c = tobool(s.val(fr, ins.a[0]))
                if c is TRUE: return [(ins.x[0], st)]
                if c is FALSE: return [(ins.x[1], st)]
                if ins.x[0] == ins.x[1]: return [(ins.x[0], st)]
                pcs = set(st.pc)
                if c in pcs: return [(ins.x[0], st)]
                if not_(c) in pcs: return [(ins.x[1], st)]
                a = st; b = st.copy(); 
                a.assume(c); b.assume(not_(c))
                return [(ins.x[0], a), (ins.x[1], b)]
            elif op == 'switch':
                v = s.val(fr, ins.a[0]); dflt, cs = ins.x
                outs = {}; rest = []
                for k, tgt in cs:
                    kk = (const(bool(k), 'B') if v.sort == 'B' else I(k))
                    outs.setdefault(tgt, []).append(eq(v, kk)); rest.append(eq(v, kk))
                res = []
                outs.setdefault(dflt, []).append(not_(or_(*rest)))
                for tgt, cc in outs.items():
                    c = or_(*cc)
                    if c is FALSE: continue
                    n = st.copy(); n.assume(c); res.append((tgt, n))
                return res
            elif op == 'ret':
                v = s.val(fr, ins.a[0]) if ins.a else None
                return [('ret', (v, st))]
            elif op == 'unreachable': return []
            elif op in ('resume',): return []
            else: env[ins.res] = s.simple(fr, ins, st)
        raise Unsupported('block without terminator')
    def simple(s, fr, ins, st):
        op = ins.op
        if op in ir.BIN:
            a, b = s.val(fr, ins.a[0]), s.val(fr, ins.a[1])
            return s.binop(op, ins.ty, a, b)
        if op == 'icmp': return s.icmp(ins.x, s.val(fr, ins.a[0]), s.val(fr, ins.a[1]), ins.a[0][0])
        if op == 'fcmp': return s.fcmp(ins.x, s.val(fr, ins.a[0]), s.val(fr, ins.a[1]))
        if op in ir.CAST:
            v = s.val(fr, ins.a[0]); ft = ins.a[0][0]; tt = ins.ty
            if v is UNDEF: return UNDEF
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fpext', 'fptrunc'): return v
            if op in ('zext', 'sext'):
                if isinstance(v, T) and v.sort == 'B': return b2i(v) if op == 'zext' else ite(v, I(-1), I(0))
                return v
            if op == 'trunc':
                if not isinstance(v, T): return v
                if tt == ('i', 1): 
                    if v.sort == 'B': return v
                    if v.op == 'ite' and isc(v.args[1]) and isc(v.args[2]): return ite(v.args[0], const(cv(v.args[1]) & 1, 'B'), const(cv(v.args[2]) & 1, 'B'))
                    if isc(v): return const(cv(v) & 1, 'B')
                    return not_(eq(v, I(0)))
                return v
            if op in ('sitofp', 'uitofp'): return toreal(b2i(v))
            if op in ('fptosi', 'fptoui'): return toint(v)
        if op == 'select':
            c, a, b = [s.val(fr, x) for x in ins.a]
            return vite(tobool(c), a, b)
        if op == 'extractvalue':
            v = s.val(fr, ins.a[0])
            for k in ins.x:
                if v is UNDEF: return UNDEF
                v = v.v[k]
            return v
        if op == 'insertvalue':
            v, x = s.val(fr, ins.a[0]), s.val(fr, ins.a[1])
            if v is UNDEF:
                t = fr.f.mod.res(ins.ty); v = Agg([UNDEF] * (len(t[1]) if t[0] == 'st' else t[1]))
            if len(ins.x) == 1:
                n = Agg(v.v); n.v[ins.x[0]] = x; return n
            raise Unsupported('nested insertvalue')
        if op == 'freeze': return s.val(fr, ins.a[0])
        if op == 'fneg': return neg(s.val(fr, ins.a[0]))
        if op == 'landingpad': return UNDEF
        raise Unsupported('instr ' + op)
    def binop(s, op, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.single and b.single:
                    if a.base is not b.base: raise Unsupported('pointer difference across objects')
                    return sub(a.off, b.off)
                r = None
                for c, bb, o in a.alts:
                    for d, b2, o2 in b.alts:
                        if bb is b2:
                            r = sub(o, o2) if r is None else ite(and_(c, d), sub(o, o2), r)
                if r is None: raise Unsupported('pointer difference')
                return r
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, T): return pshift(a, b)
            if op == 'add' and isinstance(b, Ptr): return pshift(b, a)
            raise Unsupported('pointer arithmetic ' + op)
        if a is UNDEF or b is UNDEF: raise Unsupported('undef operand')
        if ty == ('i', 1):
            a, b = tobool(a), tobool(b)
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op == 'xor': return not_(eq(a, b))
            raise Unsupported('i1 ' + op)
        if op == 'fadd' or op == 'add': return add(a, b)
        if op == 'fsub' or op == 'sub': return sub(a, b)
        if op == 'fmul' or op == 'mul': return mul(a, b)
        if op == 'fdiv': return div(a, b)
        if op in ('sdiv', 'udiv'): return idiv(a, b)
        if op in ('srem', 'urem'): return imod(a, b)
        if op == 'shl' and isc(b): return scale(1 << cv(b), a)
        if op in ('ashr', 'lshr') and isc(b):
            k = 1 << cv(b)
            c, d = TM._lin(a)
            if c % k == 0 and all(v % k == 0 for v in d.values()): return idiv(a, I(k))
            return uf('shr%d' % cv(b), [a], 'I')
        if op == 'and' and isc(b):
            if cv(b) == 0: return I(0)
            k = cv(b) + 1
            if isc(a): return I(cv(a) & cv(b))
            if a.op == 'ite': return ite(a.args[0], s.binop(op, ty, a.args[1], b), s.binop(op, ty, a.args[2], b))
            if k > 0 and k & (k - 1) == 0: return imod(a, I(k))
        if op == 'or' and isc(b) and cv(b) == 0: return a
        if isc(a) and isc(b):
            x, y = cv(a), cv(b)
            return I({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if op == 'xor' and isc(b) and cv(b) == -1: return sub(I(-1), a)
        if op == 'frem': return uf('fmod', [a, b], 'R')
        if op == 'or' and a.op == 'ite' and b.op == 'ite' and all(isc(x) for x in a.args[1:] + b.args[1:]):
            return ite(a.args[0], s.binop(op, ty, a.args[1], b), s.binop(op, ty, a.args[2], b))
        if a.op == 'ite' and op in ('and', 'or', 'xor'): return ite(a.args[0], s.binop(op, ty, a.args[1], b), s.binop(op, ty, a.args[2], b))
        if b.op == 'ite' and op in ('and', 'or', 'xor'): return ite(b.args[0], s.binop(op, ty, a, b.args[1]), s.binop(op, ty, a, b.args[2]))
        return uf('bit' + op, [a, b], 'I')
    def icmp(s, pred, a, b, ty):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn): r = const(a == b, 'B')
                else: r = FALSE
            elif pred in ('eq', 'ne'):
                r = ptr_eq(toptr(a), toptr(b))
            else:
                a, b = toptr(a), toptr(b)
                if a.single and b.single and a.base is b.base:
                    return s.icmp({'u': 's'}.get(pred[0], pred[0]) + pred[1:], a.off, b.off, ('i', 64))
                raise Unsupported('pointer ordering')
            return r if pred == 'eq' else not_(r)
        if a is UNDEF or b is UNDEF: raise Unsupported('undef compare')
        if a.sort == 'B' and b.sort == 'B':
            if pred == 'eq': return eq(a, b)
            if pred == 'ne': return not_(eq(a, b))
        a, b = b2i(a), b2i(b)
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return not_(eq(a, b))
        if pred[0] == 'u':
            # unsigned; operands taken as non-negative unless a constant says otherwise
            w = 1 << (ty[1] if ty[0] == 'i' else 64)
            if isc(a) and cv(a) < 0: a = I(cv(a) + w)
            if isc(b) and cv(b) < 0: b = I(cv(b) + w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
    def fcmp(s, pred, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('undef compare')
        p = pred[1:] if pred not in ('true', 'false', 'ord', 'uno') else pred
        if pred == 'uno': return or_(s.isnan(a), s.isnan(b))
        if pred == 'ord': return not_(or_(s.isnan(a), s.isnan(b)))
        return {'eq': eq, 'ne': lambda x, y: not_(eq(x, y)), 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p](a, b)
    def isnan(s, a):
        if isc(a) or a.op == 'toreal': return FALSE
        return uf('isnan', [a], 'B')
    # ------------------------------------------------------------ calls
    def call(s, fr, ins, st):
        cal = ins.x['callee']
        if cal[0] == 'glo': name = cal[1]
        elif cal[0] == 'asm':
            return UNDEF, st
        else:
            v = s.val(fr, (ir.PTR, cal))
            if isinstance(v, Fn): name = v.name
            else: raise Unsupported('indirect call through %r' % (v,))
        if name.startswith('llvm.'):
            args = [s.val(fr, a) if a[0][0] != 'md' else None for a in ins.a]
            from .intrin import llvm_intrinsic
            return llvm_intrinsic(s, fr, ins, st, name, args)
        args = [s.val(fr, a) for a in ins.a]
        return s.invoke(name, args, st, ins.ty, fr.f.mod)
    def invoke(s, name, args, st, rty=None, mod=None):
        dem = s.demangle(name)
        h = s.contracts.get(dem)
        if h is None:
            for rx, hh in s.patterns:
                if rx.match(dem): h = hh; break
        if h is not None and name not in s.force_inline:
            s.applied[dem] = s.applied.get(dem, 0) + 1
            cx = Call(s, st, name, dem, args, rty, mod)
            r = h(cx)
            return r, cx.st
        f = s.find(name)
        if f is None:
            raise Unsupported('external function %s' % dem)
        s.inlined.add(dem)
        return s.call_func(f, args, st)
    # ------------------------------------------------------------ loops
    def loop(s, fr, header, L, st0, env0):
        if s.unroll: return s.unroll_loop(fr, header, L, st0, env0)
        from .loops import summarise
        mark = (len(s.obl), len(s.facts), s.loop_obl); keep = st0.copy(); e0 = dict(env0)
        if any(i.op in ('call', 'invoke') and '_List_' in str(i.x['callee']) for b in L for i in fr.f.blocks[b].ins):
            # iteration over a list of constant length
            try: r = s.fixed_trips(fr, header, L, st0.copy(), dict(env0))
            except Unsupported: r = None
            if r is not None: return r
            del s.obl[mark[0]:]; del s.facts[mark[1]:]; s.loop_obl = mark[2]
        hl = s.havoc_loops
        if hl and fr.f.name == hl[0]: return summarise(s, fr, header, L, st0, env0, hl[1])
        try: return summarise(s, fr, header, L, st0, env0)
        except Unsupported as err:
            del s.obl[mark[0]:]; del s.facts[mark[1]:]; s.loop_obl = mark[2]
            r = s.fixed_trips(fr, header, L, keep, e0)
            if r is None: raise
            return r

    def fixed_trips(s, fr, header, L, st, env, limit=16):
        """a loop whose bound is a constant is executed as it stands (it may also be left early)"""
        outs = []; rets = []; blk = fr.f.blocks[header]
        for it in range(limit):
            fr.env = dict(env)
            exits, latches, rr = s.region(fr, header, L, st)
            ex2 = [o for o in exits if FALSE not in o[2].pc]; lt2 = [l for l in latches if FALSE not in l[1].pc]; rr = [r for r in rr if FALSE not in r[1].pc]
            if lt2 and any(o[0] == header for o in ex2): return None      # the bound is not a constant
            outs += ex2; rets += rr
            if not lt2: return (outs, rets) if outs or rets else None
            items = []
            for frm, ls, lenv in lt2:
                e = dict(lenv); e.update(s.phis(fr.f, blk, frm, lenv)); items.append((ls, e))
            st, env = items[0]
            for st2, env2 in items[1:]:
                c, m = s.merge2(st, st2); ne = {}
                for k, v in env.items():
                    w = env2.get(k)
                    if w is None: continue
                    try: ne[k] = v if v is w else vite(c, v, w)
                    except (Unsupported, TypeError): pass
                st, env = m, ne
        return None

    def unroll_loop(s, fr, header, L, st, env):
        outs = []; rets = []; blk = fr.f.blocks[header]
        for it in range(s.unroll):
            fr.env = dict(env)
            exits, latches, rr = s.region(fr, header, L, st)
            outs += exits; rets += rr
            if not latches: break
            items = []
            for frm, ls, lenv in latches:
                e = dict(lenv); e.update(s.phis(fr.f, blk, frm, lenv)); items.append((ls, e))
            st, env = items[0]
            for st2, env2 in items[1:]:
                c, m = s.merge2(st, st2); ne = {}
                for k, v in env.items():
                    w = env2.get(k)
                    if w is None: continue
                    try: ne[k] = v if v is w else vite(c, v, w)
                    except (Unsupported, TypeError): pass
                st, env = m, ne
            if FALSE in st.pc: break
            if it and it % 8 == 0 and any(not isc(x) for x in st.pc):
                from .prove import satisfiable
                if satisfiable(st.pc, 1500) is False: break
        else: s.truncated += 1
        res = []
        for o in outs:
            if FALSE in o[2].pc: continue
            res.append(o)
        # several iterations may leave through the same edge: the caller's join merges them
        return res, rets

class Bundle:
    def __init__(s, parts, sz): s.parts = parts; s.sz = sz
class Call:
    """context handed to contract handlers / intrinsics"""
    def __init__(s, ex, st, name, dem, args, rty, mod):
        s.ex = ex; s.st = st; s.name = name; s.dem = dem; s.args = args; s.rty = rty; s.mod = mod or ex.mods[0]
class Frame:
    def __init__(s, f): s.f = f; s.env = {}; s.cur = None
PTR_ = ('ptr',); DBLT = ('f', 'double')
def cbytes(v):
    v = v[2:-1] if v.startswith('c') else v[1:-1]
    out = []; i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return out
def flat(m, t, base=0):
    t = m.res(t)
    if t[0] == 'st':
        for o, e in zip(m.offsets(t), t[1]): yield from flat(m, e, base + o)
    elif t[0] == 'arr':
        es = m.size(t[2])
        for k in range(t[1]): yield from flat(m, t[2], base + k * es)
    else: yield base, t

class LoopInfo:
    def __init__(s, f):
        s.f = f
        # rpo
        seen = set(); post = []
        st = [(f.entry, iter(f.blocks[f.entry].succ))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); st.append((x, iter(f.blocks[x].succ))); break
            else: post.append(b); st.pop()
        s.rpo = post[::-1]
        num = {b: i for i, b in enumerate(s.rpo)}
        # dominators
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in f.blocks[b].pred if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = idom[b]
        s.loops = {}
        for b in s.rpo:
            for x in f.blocks[b].succ:
                if num[x] <= num[b]:
                    if not dom(x, b): raise Unsupported('irreducible loop in ' + f.name)
                    body = s.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body: continue
                        body.add(y); st.extend(f.blocks[y].pred)
        s.loops = {h: frozenset(b) for h, b in s.loops.items()}

"""Construction of vectors and dense matrices: constructors and the factory (host memory space, the only one in this build)."""
from .base import *
from . import dense as DEN, nlp as NLP
from ..sym import PtrCol
SRC = VEC.SRC + ['LinAlg/hiopMatrixDenseRowMajor.cpp', 'LinAlg/LinAlgFactory.cpp']
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
VP, IP, DC = 'hiop::hiopVectorPar', 'hiop::hiopVectorIntSeq', 'hiop::hiopMatrixDenseRowMajor'
FAC = 'hiop::LinearAlgebraFactory::'
RANK = lambda: sym('mpi_rank', 'I'); SIZE = lambda: sym('mpi_size', 'I')
ALL = []
def K(name, **kw):
    def d(f): ALL.append(name); return contract(name, **kw)(f)
    return d
def upper(i): return i if i.op == 'uf' and i.args[0] == 'toupper' else intrin.strid(intrin.STRVAL[cv(i)].upper()) if isc(i) and cv(i) in intrin.STRVAL else uf('toupper', [i], 'I')
TM.UFS['toupper'] = lambda i: cv(intrin.strid(intrin.STRVAL.get(int(i), 'DEFAULT').upper()))
# toupper builds its result character by character: a model
@intrin.ext(r'^hiop::toupper\(')
def _(cx): intrin.swrite(cx, cx.args[0], upper(intrin.sread(cx, cx.args[1]))); return S.UNDEF
def setp(c, v, m, p):
    o, sz, t = v._mem(m); c.ex.store(c.st, pshift(v.ptr, I(o)), p, ('ptr',), c.mod)
def getp(c, v, m):
    o, sz, t = v._mem(m); return toptr(c.ex.load(c.st, pshift(v.ptr, I(o)), ('ptr',), c.mod))
def own(env, nm, args):
    """memory the object under construction occupies"""
    pass
def raw(cls): return lambda env, st: mkptr(_raw(env, cls))
def _raw(env, cls):
    b = S.Block('self', 'obj', None, cls); b.env = env; b.members = env.members(cls); b.size = env._sz; b.over = {}; b.ignore = set(); b.mkcell = lambda off, ty: env.mkcell(b, off, ty); return b
def colpart(env, nm, args):
    r, s = RANK(), SIZE(); env.fact(and_(le(I(0), r), lt(r, s)))
    return S.ptr_ite(env.sym(nm + '.given', 'B'), mkptr(env.darr(nm, add(s, I(1)), 'I', 4)), S.NULL)
def comm(env, nm, args):
    o = S.Block(nm, 'obj'); o.members = {}; o.over = {}; return mkptr(o)
def part(c, n, cp):
    """this rank's share [lo, hi) of 0..n-1"""
    P_ = cp.snap(); given = not_(ptr_eq(cp.ptr, NULL)); r = RANK()
    return ite(given, P_(r), I(0)), ite(given, P_(add(r, I(1))), n)
icol = lambda c, p: Arr(c, p, 'I', 4)
def vinit(c, v, n, cp, cm):
    lo, hi = part(c, n, cp); c.require(and_(ge(n, I(0)), ge(sub(hi, lo), I(0))), 'size')
    v.n_ = n; v.glob_il_ = lo; v.glob_iu_ = hi; v.n_local_ = sub(hi, lo)
    setp(c, v, 'comm_', cm); setp(c, v, 'data_', mkptr(c.newarr(sub(hi, lo))))
def selfcomm(c, p):
    g = [x for x in ('ompi_mpi_comm_null', 'ompi_mpi_comm_self')]
    return S.ptr_ite(ptr_eq(p, mkptr(c.ex.gblock(g[0]))), mkptr(c.ex.gblock(g[1])), p)
def vt(c, v, cls): c.st.wr(v.ptr.base).cells[0] = (8, mkptr(c.ex.gblock(c.env.vtname(cls)), 16))
@K(VP + '::hiopVectorPar(int const&, int*, ompi_communicator_t*)', args={'this': raw(VP), 1: colpart, 2: comm}, wrap={1: icol})
def _(c, s, n, cp, cm): vt(c, s, VP); vinit(c, s, n.v, cp, selfcomm(c, cm))
@K(IP + '::hiopVectorIntSeq(int)', args={'this': raw(IP)})
def _(c, s, n): c.require(ge(n, I(0))); vt(c, s, IP); s.sz_ = n; setp(c, s, 'buf_', mkptr(c.newarr(n, 'I')))
def space_ok(c, hi):
    i = c.ex.load(c.st, hi.ptr, ('i', 64), c.mod); c.require(eq(upper(i), intrin.strid('DEFAULT')), 'host memory space')
@K(FAC + 'create_vector(hiop::ExecSpaceInfo const&, int const&, int*, ompi_communicator_t*)', static=True, args={2: colpart, 3: comm}, wrap={2: icol})
def _(c, hi, n, cp, cm):
    space_ok(c, hi); v = c.new(VP); vinit(c, v, n.v, cp, selfcomm(c, cm)); return v
@K(FAC + 'create_vector_int(hiop::ExecSpaceInfo const&, int)', static=True)
def _(c, hi, n):
    space_ok(c, hi); c.require(ge(n, I(0))); v = c.new(IP); v.sz_ = n; setp(c, v, 'buf_', mkptr(c.newarr(n, 'I'))); return v
def minit(c, s, m, n, cp, cm, mx):
    lo, hi = part(c, n, cp); given = not_(ptr_eq(cp.ptr, NULL)); rows = ite(eq(mx, I(-1)), m, mx); nl = sub(hi, lo)
    c.require(and_(ge(m, I(0)), ge(n, I(0)), ge(nl, I(0)), ge(rows, m), ge(rows, I(1))), 'sizes')
    s.myrank_ = ite(given, RANK(), I(0)); s.comm_size_ = ite(given, SIZE(), I(1))
    mset(c, s, m, n, nl, lo, cm, rows)
def mset(c, s, m, n, nl, lo, cm, rows=None):
    rows = m if rows is None else rows
    for k, x in dict(m_local_=m, n_global_=n, n_local_=nl, glob_jl_=lo, glob_ju_=add(lo, nl), max_rows_=rows).items(): setattr(s, k, x)
    setp(c, s, 'comm_', cm)
    d = c.newarr(mul(rows, nl) if isc(nl) else maxr(rows, I(1)), name='newmat')
    if not isc(nl): d.rowlen = nl
    t = S.Block('newrows', 'heap', None, stride=8, length=maxr(rows, I(1))); t.spec_new = True; c.st.mem[t] = S.Content(); c.st.own.add(t); c.st.wr(t).stride = 8
    c.st.wr(t).cols[0] = (8, PtrCol(lambda i: mkptr(d, scale(8, mul(i, nl)))))
    setp(c, s, 'M_', mkptr(t)); s.arr.write(maxr(rows, I(1)), nl, lambda i, j: R(0)); setp(c, s, 'buff_mxnlocal_', NULL)
# assumed: the row pointers and the zeroed flat storage are written by loops over both views of the same memory
@contract(DC + '::hiopMatrixDenseRowMajor(int const&, int const&, int*, ompi_communicator_t*, int const&)', args={'this': raw(DC), 2: colpart, 3: comm}, wrap={2: icol}, trusted=True)
def _(c, s, m, n, cp, cm, mx): vt(c, s, DC); minit(c, s, m.v, n.v, cp, cm, mx.v)
@K(FAC + 'create_matrix_dense(hiop::ExecSpaceInfo const&, int const&, int const&, int*, ompi_communicator_t*, int const&)', static=True, args={3: colpart, 4: comm}, wrap={3: icol})
def _(c, hi, m, n, cp, cm, mx):
    space_ok(c, hi); s = c.new(DC); minit(c, s, m.v, n.v, cp, cm, mx.v); return s
# assumed for the same reason; the storage of the copy is not initialised
def mcopy(c, s, x):
    UN = TM.asym('uninit', 'R', 2)
    mset(c, s, x.m, x.n_global_, x.n, x.glob_jl_, getp(c, x, 'comm_'), x.max_rows_); s.myrank_ = x.myrank_
    s.glob_ju_ = x.glob_ju_; s.arr.write(maxr(x.max_rows_, I(1)), x.n, lambda i, j: TM.sel(UN, i, j))
@contract(DC + '::hiopMatrixDenseRowMajor(%s const&)' % DC, args={'this': raw(DC), 0: DEN.mat('m', 'n', dist=True)}, trusted=True)
def _(c, s, x): vt(c, s, DC); mcopy(c, s, x)
CLONE = []
@contract(DC + '::alloc_clone() const', args=DEN.DIST)
def _(c, s): r = c.new(DC); mcopy(c, r, s); return r
@contract(DC + '::new_copy() const', args=DEN.DIST)
def _(c, s): r = c.new(DC); mcopy(c, r, s); r.a = s.a; return r
CLONE = [DC + '::alloc_clone() const', DC + '::new_copy() const']
ALL += CLONE

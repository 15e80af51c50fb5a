"""std::list: an array of elements plus a length; iterators are element pointers. The list object holds the element pointer at +0 and the
length at +16 (contents beyond the length are zero after clear())."""
import re
from .terms import *
from . import terms as TM
from .sym import *
from .intrin import ext
I64 = ('i', 64)
LI = r'std::__cxx11::list<'
def elem(dem):
    m = re.search(r'(?:std::__cxx11::list|std::_List_(?:const_)?iterator)<(.*)', dem); s = m.group(1); d = 0
    for k, ch in enumerate(s):
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: return s[:k].strip()
            d -= 1
        if ch == ',' and d == 0: return s[:k].strip()
def fields(cx, e):
    """[(offset, size, type)] of the element"""
    if e.endswith('*'): return [(0, 8, ('ptr',))]
    if e == 'double': return [(0, 8, ('f', 'double'))]
    if e == 'int': return [(0, 4, ('i', 32))]
    for m in cx.ex.mods:
        mm = m.members(e)
        if mm: return [(o, sz, ('f', 'double') if t[0] == 'dbl' else ('ptr',) if t[0] == 'ptr' else ('i', 8 * sz)) for n, (o, sz, t) in mm.items() if n != '_vptr' and t[0] in ('dbl', 'int', 'bool', 'ptr', 'enum')]
    raise Unsupported('list element ' + e)
def esize(cx, e):
    if e.endswith('*') or e == 'double': return 8
    if e == 'int': return 4
    for m in cx.ex.mods:
        if m.members(e): return m.class_size(e)
    raise Unsupported('list element ' + e)
def mkblock(ex, st, name, es):
    b = Block(name, 'arr', None, stride=es); b.listmem = True
    return b
def data(ex, st, L, mod): return toptr(ex.load(st, L, ('ptr',), mod))
def length(ex, st, L, mod): return ex.load(st, pshift(L, I(16)), I64, mod)
def setlen(ex, st, L, n, mod): ex.store(st, pshift(L, I(16)), n, I64, mod)
def init(cx, L, e):
    b = cx.ex.alloc(cx.st, 'list', 'heap', stride=esize(cx, e)); b.listmem = True; c = cx.st.wr(b); c.stride = b.stride
    cx.ex.store(cx.st, L, mkptr(b), ('ptr',), cx.mod); setlen(cx.ex, cx.st, L, I(0), cx.mod); zero(cx, L, e)
def zero(cx, L, e):
    p = data(cx.ex, cx.st, L, cx.mod)
    if not p.single: raise Unsupported('list aliasing')
    c = cx.st.wr(p.base)
    for o, sz, ty in fields(cx, e):
        if ty[0] == 'ptr': c.cols[o] = (sz, PtrCol(lambda i: NULL))
        else: z = const(0, 'R' if ty[0] == 'f' else 'I'); c.cols[o] = (sz, alam(lambda j: z))
def readelem(cx, p, e): return [(o, sz, ty, cx.ex.load(cx.st, pshift(toptr(p), I(o)), ty, cx.mod)) for o, sz, ty in fields(cx, e)]
def push(cx, L, e, vals, front):
    ex, st = cx.ex, cx.st; p = data(ex, st, L, cx.mod); n = length(ex, st, L, cx.mod); b = p.base; c = st.wr(b)
    for o, sz, ty, v in vals:
        A = ex.col(st, b, o, ty, sz)
        if ty[0] == 'ptr':
            f0 = A.f; c.cols[o] = (sz, PtrCol((lambda v, f0: lambda i: ptr_ite(eq(i, I(0)), toptr(v), f0(sub(i, I(1)))))(v, f0) if front else (lambda v, f0: lambda i: ptr_ite(eq(i, n), toptr(v), f0(i)))(v, f0)))
        else: c.cols[o] = (sz, alam((lambda v, A: lambda j: ite(eq(j, I(0)), v, sel(A, sub(j, I(1)))))(v, A) if front else (lambda v, A: lambda j: ite(eq(j, n), v, sel(A, j)))(v, A)))
    setlen(ex, st, L, add(n, I(1)), cx.mod)
@ext('^' + LI + r'.*>::list\(\)$')
def _(cx): init(cx, toptr(cx.args[0]), elem(cx.dem)); return UNDEF
@ext('^' + LI + r'.*>::~list\(\)$')
def _(cx): return UNDEF
@ext('^' + LI + r'.*>::clear\(\)$')
def _(cx): L = toptr(cx.args[0]); zero(cx, L, elem(cx.dem)); setlen(cx.ex, cx.st, L, I(0), cx.mod); return UNDEF
@ext('^' + LI + r'.*>::push_(front|back)\(')
def _(cx):
    e = elem(cx.dem); push(cx, toptr(cx.args[0]), e, readelem(cx, cx.args[1], e), '::push_front(' in cx.dem); return UNDEF
@ext('^' + LI + r'.*>::pop_(front|back)\(\)$')
def _(cx):
    ex, st = cx.ex, cx.st; L = toptr(cx.args[0]); e = elem(cx.dem); p = data(ex, st, L, cx.mod); n = length(ex, st, L, cx.mod); b = p.base; c = st.wr(b)
    if '::pop_front(' in cx.dem:
        for o, sz, ty in fields(cx, e):
            A = ex.col(st, b, o, ty, sz)
            c.cols[o] = (sz, PtrCol((lambda f0: lambda i: f0(add(i, I(1))))(A.f)) if ty[0] == 'ptr' else alam((lambda A: lambda j: sel(A, add(j, I(1))))(A)))
    ex.oblige('bounds', st, gt(n, I(0)), 'pop from a non-empty list')
    setlen(ex, st, L, sub(n, I(1)), cx.mod); return UNDEF
@ext('^' + LI + r'.*>::(size|empty)\(\) const$')
def _(cx):
    n = length(cx.ex, cx.st, toptr(cx.args[0]), cx.mod); return n if '::size()' in cx.dem else eq(n, I(0))
@ext('^' + LI + r'.*>::c?(begin|end|front|back)\(\)( const)?$')
def _(cx):
    L = toptr(cx.args[0]); e = elem(cx.dem); p = data(cx.ex, cx.st, L, cx.mod); w = re.search(r'::c?(begin|end|front|back)\(', cx.dem).group(1)
    if w in ('begin', 'front'): return p
    n = length(cx.ex, cx.st, L, cx.mod)
    return pshift(p, scale(esize(cx, e), n if w == 'end' else sub(n, I(1))))
IT = r'std::_List_(const_)?iterator<'
def itp(cx, p): return toptr(cx.ex.load(cx.st, toptr(p), ('ptr',), cx.mod))
@ext('^' + IT + r'.*>::operator(\+\+|--)\((int)?\)$')
def _(cx):
    e = elem(cx.dem); p = itp(cx, cx.args[0]); k = esize(cx, e) * (1 if '++' in cx.dem else -1)
    cx.ex.store(cx.st, toptr(cx.args[0]), pshift(p, I(k)), ('ptr',), cx.mod)
    return p if cx.dem.endswith('(int)') else cx.args[0]
@ext('^' + IT + r'.*>::operator(->|\*)\(\) const$')
def _(cx): return itp(cx, cx.args[0])
@ext(r'^(bool )?std::operator(==|!=)\(' + IT)
def _(cx):
    r = ptr_eq(itp(cx, cx.args[0]), itp(cx, cx.args[1])); return r if 'operator==' in cx.dem else not_(r)
@ext('^' + IT + r'.*>::_List_const_iterator\(std::_List_iterator<')
def _(cx): cx.ex.store(cx.st, toptr(cx.args[0]), itp(cx, cx.args[1]), ('ptr',), cx.mod); return UNDEF

# reverse iterators: the stored pointer is one past the element
@ext('^' + LI + r'.*>::r(begin|end)\(\)$')
def _(cx):
    o, L = toptr(cx.args[0]), toptr(cx.args[1]); e = elem(cx.dem); p = data(cx.ex, cx.st, L, cx.mod)
    if '::rbegin(' in cx.dem: p = pshift(p, scale(esize(cx, e), length(cx.ex, cx.st, L, cx.mod)))
    cx.ex.store(cx.st, o, p, ('ptr',), cx.mod); return UNDEF
RIT = r'std::reverse_iterator<std::_List_(const_)?iterator<'
@ext('^' + RIT + r'.*>::operator(\+\+|--)\(\)$')
def _(cx):
    e = elem(cx.dem); p = itp(cx, cx.args[0]); k = esize(cx, e) * (-1 if '++' in cx.dem else 1)
    cx.ex.store(cx.st, toptr(cx.args[0]), pshift(p, I(k)), ('ptr',), cx.mod); return cx.args[0]
@ext('^' + RIT + r'.*>::operator\*\(\) const$')
def _(cx): return pshift(itp(cx, cx.args[0]), I(-esize(cx, elem(cx.dem))))
@ext(r'^(bool )?std::operator(==|!=)<' + IT + r'.*\(std::reverse_iterator<')
def _(cx):
    r = ptr_eq(itp(cx, cx.args[0]), itp(cx, cx.args[1])); return r if 'operator==' in cx.dem else not_(r)

# std::vector of pointers: the first push allocates the storage, which then grows in place
def vpush(ex, st, L, p, mod, spec=False):
    b = toptr(ex.load(st, L, ('ptr',), mod)); e = toptr(ex.load(st, pshift(L, I(8)), ('ptr',), mod))
    if not b.single or not e.single: raise Unsupported('vector aliasing')
    if b.base is None:
        blk = ex.alloc(st, 'vecdata', 'heap'); blk.spec_new = spec; d = mkptr(blk); ex.store(st, L, d, ('ptr',), mod); e = d
    elif not e.base.kind == 'heap': raise Unsupported('push to a given vector')
    ex.store(st, e, p, ('ptr',), mod)
    for o in (8, 16): ex.store(st, pshift(L, I(o)), pshift(e, I(8)), ('ptr',), mod)
@ext(r'^std::vector<hiop::hiopVector\*, .*>::push_back\(')
def _(cx):
    vpush(cx.ex, cx.st, toptr(cx.args[0]), toptr(cx.ex.load(cx.st, toptr(cx.args[1]), ('ptr',), cx.mod)), cx.mod); return UNDEF

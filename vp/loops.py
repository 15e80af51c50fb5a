"""Loop summaries: candidate closed forms are guessed from the loop body and then CHECKED inductively by SMT
(init: closed(0) == value on entry; step: body(closed(t)) == closed(t+1) for every iteration t that continues).
Nothing is unrolled and no bound is used."""
from .terms import *
from . import terms as TM
from .prove import prove
from . import sym as S
from .sym import Unsupported, Ptr, PtrCol, Content, UNDEF, Agg, Fn, State, b2i

class Var:
    """loop-carried scalar"""
    __slots__ = ('key', 'sym', 'init', 'next', 'closed', 'ptr', 'size')
class AVar:
    __slots__ = ('key', 'sym', 'init', 'next', 'closed', 'size', 'blk', 'f')

def scal(v, kind=None, st=None):
    """value -> (kind, T): pointers are represented by their element index"""
    if isinstance(v, Ptr):
        if v.single and v.base is not None:
            if kind is None:
                b = v.base; sd = b.stride or (st.rd(b).stride if st is not None else None) or 1
                c = TM._lin(v.off)[0]; rem = c % sd
                try: return ('p', b, sd, rem), divx(sub(v.off, I(rem)), sd)
                except Unsupported: return ('p', b, 1, 0), v.off
            if kind[0] != 'p' or kind[1] is not v.base: raise Unsupported('loop pointer changes object')
            return kind, divx(sub(v.off, I(kind[3])), kind[2])
        raise Unsupported('loop-carried pointer %r' % (v,))
    if isinstance(v, T): return None, v
    raise Unsupported('loop-carried %r' % (v,))

def divx(x, k):
    if k == 1: return x
    c, d = TM._lin(x)
    if c % k or any(v % k for v in d.values()):
        if x.op == 'ite': return ite(x.args[0], divx(x.args[1], k), divx(x.args[2], k))
        raise Unsupported('loop pointer stride')
    return TM._mklin(c // k, {a: v // k for a, v in d.items()}, 'I')
def mkp(kind, t): return Ptr([(TRUE, kind[1], add(I(kind[3]), scale(kind[2], t)))])
def canon_exit(cc, t):
    """first t>=0 with cc(t): closed form or None"""
    if cc.op == 'ge0':
        a, b = split_lin(cc.args[0], t)
        if a is None or a <= 0: return None
        if a == 1: return neg(b)
        return idiv(add(neg(b), I(a - 1)), I(a))
    if cc.op == 'eq0':
        a, b = split_lin(cc.args[0], t)
        if a is None or a == 0: return None
        if a == 1: return neg(b)
        if a == -1: return b
    return None
def split_lin(x, t):
    c, d = TM._lin(x)
    a = d.pop(t, 0)
    for k in d:
        if t in k.fv: return None, None
    return a, TM._mklin(c, d, x.sort)

def summarise(ex, fr, header, body, st0, env0, inv=None):
    f = fr.f; blk = f.blocks[header]
    ex.loops += 1
    phis = [i for i in blk.ins if i.op == 'phi']
    t = fresh('t', 'I')
    pcbase = st0.pc; nb = len(pcbase)
    cells = {}   # (block,off) -> size
    cols = {}    # (block,field) -> size
    nobl = len(ex.obl)
    hv = {}      # phi -> header value
    for ph in phis:
        v0 = env0.get(ph.res, UNDEF)
        if v0 is UNDEF: hv[ph.res] = UNDEF if inv is None or ph.ty[0] == 'ptr' else (None, fresh('v', 'R' if ph.ty[0] == 'f' else 'I')); continue
        if isinstance(v0, Ptr):
            if not (v0.single and v0.base is not None): hv[ph.res] = ('raw', v0); continue
            hv[ph.res] = (scal(v0, None, st0)[0], fresh('po', 'I'))
        elif isinstance(v0, T): hv[ph.res] = (None, fresh('v', v0.sort))
        else: raise Unsupported('loop phi %r' % (v0,))
    hc = {}; ha = {}; hpc = {}
    for attempt in range(12):
        del ex.obl[nobl:]
        st = st0.copy(); env = dict(env0)
        for r, x in hv.items():
            if x is UNDEF: env[r] = UNDEF
            elif x[0] == 'raw': env[r] = x[1]
            elif x[0] is None: env[r] = x[1]
            else: env[r] = mkp(x[0], x[1])
        for (b, o), sz in cells.items():
            kind, s = hc[(b, o)]
            st.wr(b).cells[o] = (sz, s if kind is None else mkp(kind, s))
        for (b, o), sz in cols.items():
            st.wr(b).cols[o] = (sz, ha[(b, o)])
        if inv:
            for lbl, f_ in inv: st.assume(f_(ex, st))
        st_head = st.copy(); st.own = set()
        fr.env = env
        exits, latches, rets = ex.region(fr, header, body, st)
        if rets: raise Unsupported('ret in loop')
        if not latches:
            # never iterates
            return exits, []
        # merge latches
        frm, ls, lenv = latches[0]
        # phi next values per latch
        nx = ex.phis(f, blk, frm, lenv); 
        for frm2, ls2, lenv2 in latches[1:]:
            n2 = ex.phis(f, blk, frm2, lenv2)
            c, ls = ex.merge2(ls, ls2)
            for k in nx: nx[k] = S.vite(c, nx[k], n2[k])
        grew = False
        for ph in phis:
            x = hv[ph.res]
            if x is UNDEF:
                continue
            if x[0] == 'raw':
                n = nx[ph.res]
                if not (isinstance(n, Ptr) and same_ptr(n, x[1])): raise Unsupported('loop-carried pointer phi')
        for b, c in ls.mem.items():
            h = st_head.mem.get(b)
            if h is c: continue
            if h is None and b not in st0.mem and not known_block(b, st0): continue   # allocated in the loop
            hcont = h or Content()
            if (c.stride or hcont.stride) and c.stride != hcont.stride:
                # block adopted a stride inside the loop: adopt it before
                ex.adopt(b, c.stride, st0); grew = True; continue
            for o, (sz, v) in c.cells.items():
                e = hcont.cells.get(o)
                if e is not None and (e[1] is v or same_val(e[1], v)): continue
                if e is None:
                    e0 = ex.initcell(b, o, (sz, v))
                    if e0 is not None and (e0[1] is v or same_val(e0[1], v)): continue
                if (b, o) not in cells:
                    e = st0.mem[b].cells.get(o) if b in st0.mem else None
                    if e is None: e = ex.initcell(b, o, (sz, v))
                    if e[1] is UNDEF:
                        # written before read in every iteration (otherwise reading UNDEF raises)
                        cells_undef = getattr(fr, 'undefc', None)
                        if isinstance(v, T): hc[(b, o)] = (None, fresh('c', v.sort))
                        else: continue      # stays undefined at the head: reading it before writing raises
                        e = (sz, sym_uninit(v))
                        st0.wr(b).cells[o] = e
                    k, tt = scal(e[1], None, st0)
                    vs = v.sort if isinstance(v, T) else None
                    if k is None and vs is not None and vs != tt.sort:
                        if tt.sort == 'B': pass
                        if vs == 'I' and tt.sort == 'B' or vs == 'B' and tt.sort == 'I': 
                            hc[(b, o)] = (None, fresh('c', 'I')); st0.wr(b).cells[o] = (sz, b2i(tt))
                        else: raise Unsupported('loop cell sort')
                    else: hc[(b, o)] = (k, fresh('c', tt.sort))
                    cells[(b, o)] = sz; grew = True
            for fo, (sz, A) in c.cols.items():
                e = hcont.cols.get(fo) or b.lazy_cols.get(fo)
                if e is not None and e[1] is A: continue
                if isinstance(A, PtrCol): raise Unsupported('pointer array written in loop')
                if (b, fo) not in cols:
                    cols[(b, fo)] = sz; ha[(b, fo)] = asym('A!%d' % nid(), elem_sort(A), arity(A)); grew = True
        if not grew: break
    else: raise Unsupported('loop discovery')
    if inv is not None:
        # stated invariants: everything the body writes is arbitrary at the head, subject to the invariants
        for lbl, f_ in inv:
            ex.oblige('invariant', st0, f_(ex, st0), lbl + ' (on entry)')
            for frm, ls_, lenv_ in latches: ex.oblige('invariant', ls_, f_(ex, ls_), lbl + ' (preserved)')
        return exits, []
    # ---- collect recurrences
    svars = []; avars = []
    for ph in phis:
        x = hv[ph.res]
        if x is UNDEF or x[0] == 'raw': continue
        v = Var(); v.key = ('phi', ph.res); v.sym = x[1]; v.closed = None
        k0, v.init = scal(env0[ph.res], x[0]); k1, v.next = scal(nx[ph.res], x[0]); v.ptr = x[0]
        if k0 != k1: raise Unsupported('loop pointer changes object')
        svars.append(v)
    for (b, o), sz in cells.items():
        v = Var(); v.key = ('cell', b, o); v.sym = hc[(b, o)][1]; v.closed = None; v.size = sz; v.ptr = hc[(b, o)][0]
        e = st0.mem[b].cells.get(o) if b in st0.mem else None
        if e is None: e = ex.initcell(b, o, ls.mem[b].cells[o])
        k0, v.init = scal(e[1], v.ptr); k1, v.next = scal(ls.mem[b].cells[o][1], v.ptr)
        if v.init.sort != v.sym.sort: v.init = b2i(v.init)
        if v.next.sort != v.sym.sort: v.next = b2i(v.next)
        if k0 != k1: raise Unsupported('loop pointer cell changes object')
        svars.append(v)
    for (b, fo), sz in cols.items():
        a = AVar(); a.key = ('col', b, fo); a.blk = b; a.f = fo; a.sym = ha[(b, fo)]; a.size = sz; a.closed = None
        c0 = st0.mem.get(b)
        if c0 is not None and fo in c0.cols: a.init = c0.cols[fo][1]
        else: a.init = ex.initcol(b, fo, ls.mem[b].cols[fo])[1]
        a.next = ls.mem[b].cols[fo][1]
        avars.append(a)
    latch_pc = and_(*ls.pc[nb:])
    assume_in = latch_pc
    solve(ex, svars, avars, t, st0, exits, nb)
    closed = {v.sym: v.closed for v in svars}
    closed.update({a.sym: a.closed for a in avars})
    # ---- exits
    econd = []
    for frm, to, es, eenv in exits:
        econd.append(subst(and_(*es.pc[nb:]), closed))
    cnt = [k for k, (frm, to, es, ee) in enumerate(exits) if frm == header]
    k0 = 0 if len(exits) == 1 else cnt[0] if len(cnt) == 1 else None
    if k0 is not None and not TM.EXPAND[0] and econd[k0].op in ('ge0', 'eq0'):
        # the number of iterations is known: use t < T_ inside the iteration
        T_ = canon_exit(econd[k0], t)
        if T_ is not None and not isc(T_):
            hit = [False]
            def sm(x):
                y = TM.nonneg(x, t, T_)
                if y is not x: hit[0] = True
                return y
            SIMP[0] = sm
            try:
                old = [(v, v.closed) for v in svars + avars]
                for v in svars + avars: v.closed = None
                solve(ex, svars, avars, t, st0, exits, nb)
            finally: SIMP[0] = None
            if hit[0]:
                closed = {v.sym: v.closed for v in svars}; closed.update({a.sym: a.closed for a in avars})
                econd = [subst(and_(*es.pc[nb:]), closed) for frm, to, es, eenv in exits]
            else:
                for v, c in old: v.closed = c
    any_ = or_(*econd)
    T_ = None; facts = []
    others = [k for k in range(len(exits)) if k not in cnt]
    single = len(exits) == 1
    E = None; header_cnt = None
    if single:
        cc = last_lit(exits[0][2].pc[nb:], closed)
        T_ = canon_exit(econd[0], t) if econd[0].op in ('ge0', 'eq0') else None
    elif len(cnt) == 1:
        T_ = canon_exit(econd[cnt[0]], t)
    if T_ is not None:
        cexit = econd[0] if single else econd[cnt[0]]
        r = prove(pcbase, ge(T_, I(0)), timeout=2000)
        if not r:
            if cexit.op == 'eq0': facts.append(ge(T_, I(0)))
            else: T_ = maxr(T_, I(0))
        if single or not others: E = T_
        else:
            oc = or_(*[econd[k] for k in others])
            E = mkFirst(T_, t, oc)
    else:
        B = fresh('bound', 'I')
        E = mkFirst(B, t, any_)
        facts += [lt(E, B), ge(B, I(0))]
    ob_h = [ge(t, I(0)), le(t, E)]
    # ---- inductive check
    hyp = list(pcbase) + facts + [ge(t, I(0)), lt(t, E), subst(latch_pc, closed)]
    t1 = add(t, I(1))
    for v in svars:
        chk(ex, 'init', v, list(pcbase), eq(subst(v.closed, {t: I(0)}), v.init))
        chk(ex, 'step', v, hyp, eq(subst(v.next, closed), subst(v.closed, {t: t1})))
    for a in avars:
        j = tuple(fresh('j', 'I') for _ in range(arity(a.sym)))
        jl = [le(I(0), x) for x in j] + ([lt(j[0], a.blk.length)] if a.blk.length is not None else []) + ([lt(j[1], a.blk.rowlen)] if len(j) == 2 else [])
        chk(ex, 'init', a, list(pcbase) + jl, eq(sel(subst(a.closed, {t: I(0)}), *j), sel(a.init, *j)))
        chk(ex, 'step', a, hyp + jl, eq(subst(sel(a.next, *j), closed), sel(subst(a.closed, {t: t1}), *j)))
    # ---- obligations raised inside
    for ob in ex.obl[nobl:]:
        pc = tuple(subst(x, closed) for x in ob[1])
        ob[1] = tuple(facts) + pc[:nb] + tuple(ob_h) + pc[nb:]
        ob[2] = subst(ob[2], closed)
    # ---- exit states
    atE_ = {k: subst(v, {t: E}) for k, v in closed.items()}
    atT = {k: subst(v, {t: T_}) for k, v in closed.items()} if T_ is not None and others and len(cnt) == 1 else None
    outs = []
    for k, (frm, to, es, eenv) in enumerate(exits):
        n = State(); n.trace = es.trace
        newpc = pcbase + tuple(facts)
        # on the counting exit the loop ran to its full count
        atE = atT if atT is not None and k in cnt else atE_
        rest = [subst(x, atE) for x in es.pc[nb:]]
        if len(exits) > 1 and T_ is not None:
            if k in cnt: rest = [eq(E, T_)] if len(cnt) == 1 else [eq(E, T_)] + rest
            else: rest = [lt(E, T_)] + rest
        elif single and T_ is not None: rest = []
        n.pc = newpc + tuple(x for x in rest if x is not TRUE)
        if FALSE in n.pc: continue
        memo = {}
        n.mem = {}
        for b, c in es.mem.items():
            if st0.mem.get(b) is c: n.mem[b] = c
            else: n.mem[b] = subst_content(c, atE, memo)
        n.own = set()
        env2 = {}
        for kx, vx in eenv.items():
            if env0.get(kx) is vx: env2[kx] = vx
            else: env2[kx] = subst_val(vx, atE, memo)
        outs.append((frm, to, n, env2))
    return outs, []

def known_block(b, st0): return b.kind in ('global', 'obj', 'arr')
def last_lit(pc, closed): return None
_id = [0]
def nid(): _id[0] += 1; return _id[0]
def sym_uninit(v): return fresh('uninit', v.sort)
def same_ptr(p, q):
    return len(p.alts) == len(q.alts) and all(a[0] is b[0] and a[1] is b[1] and a[2] is b[2] for a, b in zip(p.alts, q.alts))
def same_val(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return same_ptr(a, b)
    if isinstance(a, Fn): return a == b
    return a is b
def subst_val(v, m, memo):
    if isinstance(v, T): return subst(v, m)
    if isinstance(v, Ptr): return Ptr([(subst(c, m), b, subst(o, m)) for c, b, o in v.alts])
    if isinstance(v, Agg): return Agg([subst_val(x, m, memo) for x in v.v])
    if isinstance(v, PtrCol):
        return PtrCol(lambda i: subst_val(v.f(i), m, memo))
    return v
def subst_content(c, m, memo):
    n = Content(); n.zero = c.zero; n.stride = c.stride
    for o, (sz, v) in c.cells.items(): n.cells[o] = (sz, subst_val(v, m, memo))
    for o, (sz, A) in c.cols.items(): n.cols[o] = (sz, subst_val(A, m, memo))
    return n

LOOP_FAIL = []
def chk(ex, what, v, hyps, goal):
    ex.loop_obl += 1
    r = prove(hyps, goal, timeout=6000)
    if not r:
        nm = v.key
        LOOP_FAIL.append((what, nm, goal, r))
        raise Unsupported('loop invariant %s check failed for %s: %s [%s]' % (what, nm[0], show(goal)[:300], r))

SIMP = [None]
def simp(x): return x if SIMP[0] is None else SIMP[0](x)
def solve(ex, svars, avars, t, st0, exits, nb):
    """find closed forms"""
    sub = {}
    pend = list(svars); apend = list(avars)
    hsyms = {v.sym for v in svars} | {a.sym for a in avars}
    def unsolved(x): return {s for s in x.fv if s in hsyms and s not in sub}
    progress = True
    while (pend or apend) and progress:
        progress = False
        for v in list(pend):
            n = simp(subst(v.next, sub))
            if n is v.sym: v.closed = v.init
            else:
                u = unsolved(n)
                if u - {v.sym}:
                    d = diff(n, v.sym)
                    if d is None or unsolved(d): continue
                if v.sym not in n.fv:
                    # overwritten each iteration: value at t is next at t-1
                    if u: continue
                    tm = sub1(n, t)
                    v.closed = ite(le(t, I(0)), v.init, subst(n, {t: sub_t(t)})) if t in n.fv else ite(le(t, I(0)), v.init, n)
                else:
                    d = diff(n, v.sym) if v.sym.sort in 'IR' else None
                    if d is not None and not unsolved(d):
                        if t not in d.fv: v.closed = add(v.init, mul(d, t if v.init.sort == 'I' else toreal(t)))
                        else:
                            i = fresh('i', 'I'); v.closed = add(v.init, mkSum(t, i, subst(d, {t: i})))
                    elif not (u - {v.sym}):
                        i = fresh('i', 'I'); a = fresh('a', v.sym.sort)
                        v.closed = mkFold(t, i, (v.init,), (a,), (subst(n, {t: i, v.sym: a}),))[0]
                    else: continue
            sub[v.sym] = v.closed; pend.remove(v); progress = True
        for a in list(apend):
            c = solve_array(ex, a, t, sub, hsyms, avars)
            if c is None: continue
            a.closed = c; sub[a.sym] = c; apend.remove(a); progress = True
        if not progress and pend:
            # mutually dependent scalars: one joint fold (arrays must be solved or not involved)
            grp = []
            cand = set(v.sym for v in pend)
            # smallest closed dependency set
            best = None
            for v in pend:
                S_ = {v.sym}; ok = True; work = [v]
                while work:
                    w = work.pop()
                    n = subst(w.next, sub)
                    for s in unsolved(n):
                        if s in S_: continue
                        if s not in cand: ok = False; break
                        S_.add(s); work.append([q for q in pend if q.sym is s][0])
                    if not ok: break
                if ok and (best is None or len(S_) < len(best)): best = S_
            if best:
                grp = [v for v in pend if v.sym in best]
                i = fresh('i', 'I'); accs = tuple(fresh('a', v.sym.sort) for v in grp)
                m = {v.sym: a for v, a in zip(grp, accs)}; m[t] = i
                steps = tuple(subst(simp(subst(v.next, sub)), m) for v in grp)
                cl = mkFold(t, i, tuple(v.init for v in grp), accs, steps)
                for v, c in zip(grp, cl):
                    v.closed = c; sub[v.sym] = c; pend.remove(v)
                progress = True
        if not progress and apend and not pend and len(apend) > 1:
            # arrays that read each other: guess that only elements not yet written are read (checked below)
            cs = [(a, solve_array(ex, a, t, {**sub, **{b.sym: b.init for b in apend if b is not a}}, hsyms, avars)) for a in apend]
            if all(c is not None for a, c in cs):
                for a, c in cs: a.closed = c; sub[a.sym] = c
                apend = []
    if pend or apend:
        raise Unsupported('cannot summarise loop variable %s: next=%s' % ((pend or apend)[0].key[:1], show((pend or apend)[0].next)[:400]))

def sub1(n, t): return n
def sub_t(t): return sub(t, I(1))

def conj(c): return list(c.args) if c.op == 'and' else [c]
def solve_for(c, j, t):
    """find s with c(t,j) => t == s(j)"""
    for x in conj(c):
        if x.op != 'eq0': continue
        cc, d = TM._lin(x.args[0])
        if j not in d or t not in d: continue
        a, b = d[j], d[t]
        rest = {k: v for k, v in d.items() if k is not j and k is not t}
        if any(t in k.fv or j in k.fv for k in rest): continue
        if abs(b) == 1:
            # b*t = -(a*j + rest + c)
            return scale(-b, add(TM._mklin(cc, rest, 'I'), scale(a, j)))
        if abs(a) == 1:
            # j = -(b*t+rest)/a ; t = (-(a*j+rest))/b exact division
            num = scale(-1, add(TM._mklin(cc, rest, 'I'), scale(a, j)))
            if b < 0: num, b = neg(num), -b
            return idiv(num, I(b))
    return None

def solve_array(ex, a, t, sub, hsyms, avars):
    j = tuple(fresh('j', 'I') for _ in range(arity(a.sym)))
    u = simp(subst(sel(a.next, *j), sub))
    bad = {s for s in u.fv if s in hsyms and s not in sub and s is not a.sym}
    dflt = sel(a.sym, *j)
    def dec(u):
        if u is dflt: return FALSE, None
        if u.op == 'ite':
            c = u.args[0]
            cx, vx = dec(u.args[1]); cy, vy = dec(u.args[2])
            cond = or_(and_(c, cx), and_(not_(c), cy))
            if vx is None: return cond, vy
            if vy is None: return cond, vx
            return cond, ite(c, vx, vy)
        return TRUE, u
    cond, val = dec(u)
    if val is None: return a.init
    # reads of the array at other places
    def fix(x):
        """replace self reads"""
        reads = [y for y in subterms(x) if y.op == 'sel' and y.args[0] is a.sym and y is not dflt]
        m = {}
        eqs = [c for c in conj(cond) if c.op == 'eq0']
        for y in reads:
            if any(v.op == 'bv' for v in y.fv): continue
            if all(eq(e, jj) in eqs or e is jj for e, jj in zip(y.args[1:], j)): m[y] = dflt
        if m: x = subst_terms(x, m)
        return x
    # value under nested ites: per-leaf equalities
    val = fix_leaves(val, cond, a, j, dflt)
    rest_reads = [y for y in subterms(and_(cond, TRUE)) | subterms(val) if y.op == 'sel' and y.args[0] is a.sym and y is not dflt]
    if bad:
        return None
    acc = None
    self_in = dflt in subterms(val) or dflt in subterms(cond)
    A0 = a.init
    s = None
    for jj in j:
        s = solve_for(cond, jj, t)
        if s is not None: break
    J0 = sel(A0, *j)
    if s is not None:
        m = {t: s}
        c2 = subst(cond, m); v2 = subst(val, m)
        mm = {dflt: J0}
        c2 = subst_terms(c2, mm); v2 = subst_terms(v2, mm)
        c2 = subst(c2, {a.sym: A0}); v2 = subst(v2, {a.sym: A0})
        body = ite(and_(le(I(0), s), lt(s, t), c2), v2, J0)
        return mk_lam(None, j, body)
    if rest_reads:
        cond = subst_keep(cond, a.sym, A0, dflt); val = subst_keep(val, a.sym, A0, dflt)
    if self_in:
        i = fresh('i', 'I'); ac = fresh('a', dflt.sort)
        stp = subst(subst_terms(ite(cond, val, dflt), {dflt: ac}), {t: i})
        return mk_lam(None, j, mkFold(t, i, (J0,), (ac,), (stp,))[0])
    i = fresh('i', 'I')
    if t not in cond.fv and t not in val.fv:
        return mk_lam(None, j, ite(and_(gt(t, I(0)), cond), val, J0))
    l = mkLast(t, i, subst(cond, {t: i}))
    return mk_lam(None, j, ite(ge(l, I(0)), subst(val, {t: l}), J0))
def fix_leaves(val, cond, a, j, dflt):
    """under cond (conjunction containing j==e) rewrite a.sym[e] to a.sym[j]; recurses into ite guards"""
    def go(v, conds):
        if v.op == 'ite':
            c = v.args[0]
            return ite(rew(c, conds), go(v.args[1], conds | set(conj(c))), go(v.args[2], conds | set(conj(not_(c)))))
        return rew(v, conds)
    def rew(x, conds):
        m = {}
        for y in subterms(x):
            if y.op == 'sel' and y.args[0] is a.sym and y is not dflt and not any(q.op == 'bv' for q in y.fv):
                if all(eq(e, jj) in conds or e is jj for e, jj in zip(y.args[1:], j)): m[y] = dflt
        return subst_terms(x, m) if m else x
    return go(val, set(conj(cond)))
def subst_terms(x, m):
    """replace whole subterms (not under binders capturing them)"""
    memo = {}
    keys = set(m)
    fvs = frozenset().union(*[k.fv for k in keys])
    def go(y):
        if y in m: return m[y]
        if not (y.fv & fvs): return y
        r = memo.get(y)
        if r is not None: return r
        if y.op == 'lam':
            n, bvs, body = y.args
            frs = tuple(fresh('b', b.sort) for b in bvs)
            r = mk_lam(None if n is None else go(n), frs, go(subst(body, dict(zip(bvs, frs)))))
        elif y.op in ('sym', 'bv', 'c'): r = y
        else: r = TM.rebuild(y, go)
        memo[y] = r
        return r
    return go(x)
def subst_keep(x, A, A0, dflt):
    """replace reads of A other than dflt by reads of A0"""
    ph = fresh('keep', dflt.sort)
    y = subst_terms(x, {dflt: ph})
    y = subst(y, {A: A0})
    return subst(y, {ph: dflt})

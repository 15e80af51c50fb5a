"""Verification of one function body against its contract; counterexample search and replay."""
import time, random, zlib, json, traceback, math
from fractions import Fraction
import z3
from . import terms as TM
from .terms import *
from .sym import *
from . import sym as S, intrin, prove as PR, loops
from .prove import prove, satisfiable, Tr
from .contract import *
from . import contract as CT
CT.VIEW_DEFAULT = View

class Absent(Exception): pass
TIME = {'limit': 40.0}

def make_ex(mods, inline_all=False, unroll=0):
    ex = Executor(mods)
    ex.patterns = list(intrin.EXT)
    ex.unroll = unroll
    ex.con_used = {}
    for n, k in REG.items():
        if inline_all and not k.trusted and not k.o.get('opaque'): continue
        ex.contracts[n] = handler(ex, k)
    for rx, h in PATTERNS: ex.patterns.insert(0, (rx, h))
    return ex
PATTERNS = []
def virt(ex, name):
    pass
def handler(ex, k):
    def h(cx):
        c = Ctx(ex, cx.st, 'call', cx.mod, k.name)
        ex.con_used[k.name] = ex.con_used.get(k.name, 0) + 1
        if k.o.get('raw'): r = k.spec(c, *cx.args)
        else: r = apply_spec(c, k, cx.args, cx.name)
        cx.st = c.st
        if isinstance(r, View): r = r.ptr
        if isinstance(r, (bool, int)) and not isinstance(r, T):
            r = const(r, 'B') if isinstance(r, bool) else (R(r) if cx.rty == ('f', 'double') else I(r))
        if isinstance(r, T) and cx.rty == ('f', 'double') and r.sort == 'I': r = toreal(r)
        return r
    return h
def apply_spec(c, k, args, mangled=None):
    if 'cargs' in k.o:
        # C linkage: no types in the name
        return k.spec(c, *[f(c, v) if f else v for f, v in zip(k.o['cwrap'], args)])
    tys = sigtypes(k.name)
    off = len(args) - len(tys)
    al = []
    over = k.o.get('wrap', {})
    for q in range(off):
        al.append(c.wrap(args[q], clsof(k.name)) if q == off - 1 and not k.o.get('static') else args[q])
    for q, (t, v) in enumerate(zip(tys, args[off:])):
        al.append(c.wraparg(t, v, q, over.get(q)))
    return k.spec(c, *al)

def setup(k, ex, env, st, F):
    tys = sigtypes(k.name); off = len(F.params) - len(tys)
    args = []; ov = k.o.get('args', {})
    cls = clsof(k.name)
    env.variant = k.o.get('variant'); env.vmode = k.o.get('vmode', 'nlp')
    if k.o.get('init'): k.o['init'](env)
    if 'cargs' in k.o:
        for q, f in enumerate(k.o['cargs']): args.append(f(env, 'a%d' % q, args))
        return args
    for q in range(off):
        if 'this' in ov: args.append(ov['this'](env, st)); continue
        b = env.obj(k.o.get('cls', cls), 'self'); args.append(mkptr(b))
    for q, t in enumerate(tys):
        f = ov.get(q)
        nm = k.o.get('names', {}).get(q, 'a%d' % q)
        if f is not None:
            v = f(env, nm, args)
            args.append(v); continue
        b, n = basecls(t)
        pt = F.params[off + q][0]
        if n == 0:
            so = 'R' if pt[0] == 'f' else 'B' if pt == ('i', 1) or b == 'bool' else 'I'
            args.append(env.sym(nm, so)); continue
        if b.startswith('hiop::') and not b.endswith('Type'): args.append(mkptr(env.obj(b, nm))); continue
        if b in SCAL and t.endswith('*') and b != 'bool':
            n_ = env.sym(nm + '.len', 'I'); env.fact(ge(n_, I(0)))
            args.append(mkptr(env.darr(nm, n_, SCAL[b][1], 8 if b in ('double', 'long', 'long long', 'unsigned long') else 4))); continue
        o = Block(nm, 'obj'); o.members = {}; o.over = {}; o.env = env
        o.mkcell = lambda off, ty, o=o: env.mkcell(o, off, ty) if ty[0] != 'ptr' else None
        if b == 'bool': o.lazy_cells[0] = (1, env.sym(nm, 'B'))
        o.cls = None; args.append(mkptr(o))
    al = k.o.get('alias')
    return args

class VC:
    __slots__ = ('label', 'hyps', 'goal', 'kind')
    def __init__(s, kind, label, hyps, goal): s.kind = kind; s.label = label; s.hyps = hyps; s.goal = goal

def generate(k, mods, val=None, rng=None, inline_all=False, unroll=0, variant=None):
    """-> (env, reqs, vcs, info)"""
    ex = make_ex(mods, inline_all, unroll)
    env = Env(ex, val, rng)
    F = None
    for m in mods:
        for f in m.ftxt:
            if f in ex.dem or True:
                pass
    name = resolve(ex, k.name)
    if name is None: raise Absent(k.name)
    F = ex.find(name)
    ex.contracts.pop(k.name, None)
    for n, h in k.o.get('calls', {}).items(): ex.contracts[n] = h
    st = State()
    args = setup(k, ex, env, st, F)
    if variant is not None: args = variant(env, args)
    ss = st.copy()
    c = Ctx(ex, ss, 'verify', ex.fmod[name], k.name)
    ex.quiet_obl = 1
    rs = apply_spec(c, k, args)
    ex.quiet_obl = 0
    ss = c.st
    if isinstance(rs, View): rs = rs.ptr
    reqs = list(c.reqs)
    for r in reqs: st.assume(r)
    npre = len(ex.facts)
    ex.obl.clear()
    t0 = time.time()
    ens = []
    if c.loopinv is not None: ex.havoc_loops = (F.name, c.loopinv)
    rc, sc = ex.call_func(F, args, st)
    vcs = []; ret = rc
    for kind, pc, goal, where in ex.obl: vcs.append(VC(kind, '%s: %s' % (kind, where), tuple(pc), goal))
    if sc is None:
        if not k.o.get('noreturn'): vcs.append(VC('return', 'function returns', tuple(reqs), FALSE))
    else:
        # a function verified against stated loop invariants is judged on each way of returning, otherwise on the joined result
        for nret, (rc, sc) in enumerate(ex.allrets or [(rc, sc)]):
            tag = ' (return %d)' % nret if ex.allrets and len(ex.allrets) > 1 else ''; ret = rc; rq = rs; n0 = len(vcs)
            if rq is not None and not isinstance(rq, (T, Ptr, Fn, Agg)): rq = const(rq, rc.sort if isinstance(rc, T) else 'I')
            if isinstance(rq, T) and isinstance(rc, T) and rq.sort != rc.sort:
                if rq.sort == 'B' and rc.sort == 'I': rc = tobool(rc)
                elif rq.sort == 'I' and rc.sort == 'B': rc = b2i(rc)
                elif rc.sort == 'R' and rq.sort == 'I': rq = toreal(rq)
            if rq is None and k.o.get('ret') == 'any': rc = None
            ex.quiet_obl = 1
            for lbl, goal in compare(ex, sc, ss, rc if rq is not None else None, rq):
                vcs.append(VC('post', 'post: ' + lbl + tag, tuple(sc.pc) + tuple(x for x in ss.pc if x not in st.pc), goal))
            if not any(v.kind == 'post' for v in vcs[n0:]): vcs.append(VC('post', 'post: result and final memory are those of the specification (identical terms)' + tag, tuple(sc.pc), TRUE))
            if c.ensures:
                c2 = Ctx(ex, sc, 'verify', c.mod, k.name)
                for lbl, g in c.ensures:
                    vcs.append(VC('post', 'ensures: ' + lbl + tag, tuple(sc.pc), g(c2, ret)))
        for lbl, hy, g in c.lemmas: vcs.append(VC('post', 'lemma: ' + lbl, hy, g))
        ex.quiet_obl = 0
    info = dict(applied=dict(ex.con_used), inlined=sorted(ex.inlined), loops=ex.loops, loop_obl=ex.loop_obl, trunc=ex.truncated, externals=sorted(n for n in ex.applied if n not in REG))
    return ex, env, reqs, vcs, info
_res = {}
def resolve(ex, dem):
    for m in ex.mods:
        t = _res.get(id(m))
        if t is None:
            names = list(m.ftxt)
            from . import ir
            d = ir.demangle(names); t = {}
            for n, x in d.items():
                if n not in t.values(): t.setdefault(x, n)
                # prefer complete-object constructors
                if 'C1E' in n: t[x] = n
            # C2 holds the body when C1 is an alias
            _res[id(m)] = t
        if dem in t: return t[dem]
    return None

# ------------------------------------------------------------------------------------------------ proof
def verify(k, mods, opts):
    """one contract, in each of its shape variants"""
    vs = k.o.get('variants')
    if not vs: return verify1(k, mods, opts)
    t0 = time.time(); out = None
    if k.o.get('vsplit') and opts.get('part', (0, 1))[1] == len(vs): vs = [vs[opts['part'][0]]]; opts = dict(opts, part=(0, 1))      # each variant in a process of its own
    for v in vs:
        if time.time() - t0 > opts.get('vmax', 240) and out:
            out['reason'] = 'time'; out['status'] = 'undecided'; out['failed'].append('variant %r not reached' % (v,)); break
        r = verify1(Contract(k.name, k.spec, **{**k.o, 'variants': None, 'variant': v}), mods, dict(opts, validate=min(1, opts.get('validate', 3))))
        r['failed'] = ['%s (variant %s)' % (x, v) for x in r['failed']]
        if r['status'] == 'absent': return r
        out = merge(out, r)
        if r['status'] in ('violation', 'nfif'): break
    out['time'] = round(time.time() - t0, 2); out['variants'] = len(vs)
    return out
RANK = ('proved', 'absent', 'vacuous', 'error', 'timeout', 'unsupported', 'undecided', 'nfif', 'violation')
def merge(a, b):
    if a is None: return b
    w = b if RANK.index(b['status']) > RANK.index(a['status']) else a; r = dict(w)
    for n in ('obligations', 'discharged', 'solver_time', 'queries', 'syntactic', 'validations', 'loops'):
        x, y = a.get(n, 0), b.get(n, 0); r[n] = x + y if not isinstance(x, (list, dict)) else x
    for n in ('failed', 'inlined', 'applied', 'externals'): r[n] = list(dict.fromkeys(list(a.get(n) or []) + list(b.get(n) or [])))
    r['validation_errors'] = (a.get('validation_errors') or []) + (b.get('validation_errors') or [])
    r['reachable'] = bool(a.get('reachable') and b.get('reachable'))
    return r
def verify1(k, mods, opts):
    t0 = time.time()
    res = dict(function=k.name, status='proved', obligations=0, discharged=0, failed=[], reason='', loops=0, inlined=[], applied=[], bounded=None, validations=0)
    q0 = dict(PR.STATS)
    TM.EXPAND[0] = 0; TM.CONC[0] = False
    vcs = None; und = []
    try:
        ex, env, reqs, vcs, info = generate(k, mods)
        res['loops'] = info['loops']; res['inlined'] = info['inlined']; res['applied'] = sorted(info['applied']); res['externals'] = info['externals']
        res['obligations'] = len(vcs) + info['loop_obl']; res['discharged'] = info['loop_obl']
        pre = list(ex.facts) + reqs; res['reachable'] = False
        part, parts = opts.get('part', (0, 1))
        if parts > 1:
            # the obligations of one function shared between several processes
            vcs = vcs[part::parts]; res['obligations'] = len(vcs) + (info['loop_obl'] if part == 0 else 0); res['discharged'] = info['loop_obl'] if part == 0 else 0
            if part: opts = dict(opts, validate=0)
        for v in vcs:
            r = prove(list(ex.facts) + list(v.hyps), v.goal, timeout=opts.get('timeout', 8000))
            if r: res['discharged'] += 1
            else: und.append((v, r)); res['failed'].append('%s [%s]' % (v.label, r.status))
            if len(und) > 4 or (time.time() - t0 > opts.get('tlimit', 60) and v is not vcs[-1]):
                if not und: res['status'] = 'undecided'; res['reason'] = 'time: %d obligations not reached' % (res['obligations'] - res['discharged'])
                break
        if und: res['status'] = 'undecided'
    except Absent as e:
        res['status'] = 'absent'; res['reason'] = 'no function %s in the compiled sources' % e
        return fin(res, t0, q0)
    except (Unsupported, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, NotImplementedError, z3.Z3Exception) as e:
        res['status'] = 'unsupported'; res['reason'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        if opts.get('debug'): traceback.print_exc()
    # ---------------- bounded stand-in, counterexample search, replay
    nval = opts.get('validate', 3)
    if res['status'] in ('undecided', 'unsupported'):
        b = search(k, mods, opts, und)
        res['bounded'] = b
        if b['violation']: res['status'] = 'violation'; res['replay'] = b['violation']
        elif res['status'] == 'undecided':
            # solver refuted an obligation that contains no abstraction: report it even without a replay
            hard = [v for v, r in und if r.status == 'refuted' and v.kind != 'bounds2' and not has_abs(v)]
            # unless the symbolic search at small sizes established it throughout (then it is a bounded result)
            if hard and not 2 <= b['bounded_ok'] == len(b['bounded_sizes']): res['status'] = 'nfif'; res['reason'] = hard[0].label
    elif nval and res['status'] == 'proved':
        b = concrete(k, mods, opts, nval, 6.0)
        res['validations'] = b['runs']; res['validation_errors'] = b['errors'][:2]
        res['reachable'] = b['runs'] > 0     # a concrete run satisfies the preconditions
        if b['violation']: res['validation_errors'] = ['validation run disagrees with the proof: %s' % json.dumps(b['violation'], default=str)[:2000]]
    if res['status'] == 'proved' and not res['reachable']:
        TM.EXPAND[0] = 0; TM.CONC[0] = False
        sat = satisfiable(pre, 4000); res['reachable'] = bool(sat)
        if sat is False: res['status'] = 'vacuous'; res['reason'] = 'contradictory requires'
    return fin(res, t0, q0)
def fin(res, t0, q0):
    res['time'] = round(time.time() - t0, 2); res['solver_time'] = round(PR.STATS['time'] - q0['time'], 2)
    res['queries'] = PR.STATS['queries'] - q0['queries']; res['syntactic'] = PR.STATS['syntactic'] - q0['syntactic']
    TM.EXPAND[0] = 0; TM.CONC[0] = False
    return res
def has_abs(v):
    for t in list(v.hyps) + [v.goal]:
        for x in subterms(t):
            if x.op in ('red', 'uf', 'idiv', 'imod', 'toint'): return True
            if x.op == 'mul': return True
    return False

def scal_syms(env): return [t for t in env.used.values() if not t.sort.startswith('A')]
def z3val(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    try: 
        a = v.approx(20); return Fraction(a.numerator_as_long(), a.denominator_as_long())
    except Exception: return None

def sample_values(forms, syms, rng, prefer=None, sizes=False, tmo=1500):
    """random assignment of syms consistent with forms (reductions-free or expanded)"""
    tr = Tr(); s = z3.Solver(); s.set('timeout', tmo)
    for f in forms:
        try: s.add(tr(f))
        except Exception: continue
    for k, f in enumerate(tr.side):
        s.add(tr(f))
    if s.check() != z3.sat: return None
    m = s.model()
    order = list(syms)
    if not sizes or rng.random() < 0.5: rng.shuffle(order)      # otherwise the sizes introduced first are chosen first
    out = {}
    # bulk attempt first
    big = [2, 3, 4, 4, 5] if sizes and rng.random() < 0.25 else None
    for t in order:
        e = tr(t)
        v = prefer.get(t.args[0]) if prefer else None
        if v is None: v = rng.choice(big or [1, 2, 2, 3, 3, 0]) if sizes and t.sort == 'I' else rnd(rng, t.sort)
        out[t] = v
    def lit(t, v): return tr(t) == (z3.Q(Fraction(v).numerator, Fraction(v).denominator) if t.sort == 'R' else v)
    s.push()
    s.add(*[lit(t, out[t]) for t in order])
    if s.check() == z3.sat:
        return {t.args[0]: out[t] for t in order}
    s.pop()
    # assert in chunks
    dl = time.time() + 6
    def go(ts):
        nonlocal m
        if not ts or time.time() > dl: return
        s.push(); s.add(*[lit(t, out[t]) for t in ts])
        if s.check() == z3.sat: m = s.model(); return
        s.pop()
        if len(ts) == 1: return
        h = len(ts) // 2; go(ts[:h]); go(ts[h:])
    go(order)
    if s.check() != z3.sat: return None
    m = s.model()
    r = {}
    for t in order:
        v = z3val(m, tr(t)); r[t.args[0]] = v if v is not None else out[t]
    return r

def pick_sizes(k, mods, rng, cache, prefer=None):
    """integer scalar parameters consistent with the preconditions"""
    TM.EXPAND[0] = 0; TM.CONC[0] = False
    if 'sz' not in cache:
        ex = make_ex(mods); env = Env(ex); name = resolve(ex, k.name); F = ex.find(name)
        st = State(); args = setup(k, ex, env, st, F)
        c = Ctx(ex, st, 'verify', ex.fmod[name], k.name); ex.quiet_obl = 1
        apply_spec(c, k, args)
        forms = [f for f in list(ex.facts) + c.reqs if not any(x.op in ('red', 'sel') for x in subterms(f))]
        # integers constrained through array contents (counts, indices) are left to the choice of the contents, unless they are array sizes
        dep = {x for f in list(ex.facts) + c.reqs if any(y.op in ('red', 'sel') for y in subterms(f)) for x in subterms(f) if x.op == 'sym' and x.sort == 'I'}
        for f in list(ex.facts) + c.reqs:
            for y in subterms(f):
                if y.op == 'red' and y.args[1] and y.args[1][0].sort == 'I': env.dim(y.args[1][0])
        cache['sz'] = (forms, [t for t in scal_syms(env) if t.sort == 'I' and (t not in dep or t in env.dims)], env)
    forms, syms, env = cache['sz']
    mx = rng.choice([6, 6, 6, 6, 6, 18, 18, 18, 18, None])
    lim = [and_(ge(t, I(-2)), le(t, I(mx))) for t in syms] if mx else []
    r = sample_values(forms + lim, syms, rng, prefer, sizes=True)
    if r is None: r = sample_values(forms, syms, rng, prefer, sizes=True)
    return r

def concrete_case(k, mods, rng, sizes, prefer=None, cache=None):
    """full concrete valuation: names -> values"""
    TM.EXPAND[0] = 64; TM.CONC[0] = False
    ex = make_ex(mods); env = Env(ex, dict(sizes)); name = resolve(ex, k.name); F = ex.find(name)
    st = State(); args = setup(k, ex, env, st, F)
    c = Ctx(ex, st, 'verify', ex.fmod[name], k.name); ex.quiet_obl = 1
    apply_spec(c, k, args)
    forms = list(ex.facts) + c.reqs
    syms = scal_syms(env)
    v = sample_values(forms, syms, rng, prefer)
    if v is None: return None
    v.update({a: b for a, b in sizes.items()})
    if prefer:
        for n, x in prefer.items(): v.setdefault(n, x)
    return v

def run_concrete(k, mods, vals, seed, unroll=400):
    """execute the function's real code on concrete inputs; returns list of mismatches"""
    TM.EXPAND[0] = 4096; TM.CONC[0] = True; intrin.NEUTRAL[0] = random.Random(seed).random() < 0.5
    try:
        ex, env, reqs, vcs, info = generate(k, mods, val=vals, rng=random.Random(seed), inline_all=True, unroll=unroll)
        if any(r is FALSE for r in reqs): return None
        bad = []
        for v in vcs:
            if any(h is FALSE for h in v.hyps): continue
            g = v.goal
            if g is TRUE: continue
            if g is FALSE or isc(g):
                if any(not isc(h) for h in v.hyps): continue
                bad.append(v.label); continue
        # value-level comparison with tolerance
        out = []
        for v in vcs:
            if v.goal is TRUE: continue
            if any(not (isc(h) and cv(h)) for h in v.hyps): continue
            if v.goal is FALSE and v.kind in ('post',):
                if v.label in CLOSE: continue
            if v.goal is FALSE: out.append(v.label)
        return out
    finally:
        TM.CONC[0] = False; TM.EXPAND[0] = 0
CLOSE = {}

def concrete(k, mods, opts, nruns, tlimit, prefers=(), seed=0):
    res = dict(runs=0, violation=None, errors=[], sizes=[])
    rng = random.Random(zlib.crc32(k.name.encode()) + opts.get('seed', 1) + seed)
    t0 = time.time(); cache = {}
    if k.o.get('noconc'): return res
    todo = list(prefers) + [None] * (nruns * 2)
    for pf in todo:
        if time.time() - t0 > tlimit or (res['runs'] >= nruns + len(prefers)): break
        try:
            sz = pick_sizes(k, mods, rng, cache, pf)
            if sz is None: res['errors'].append('no sizes'); continue
            if max([abs(x) for x in sz.values()] + [0]) > 24: continue
            v = concrete_case(k, mods, rng, sz, pf)
            if v is None: res['errors'].append('no inputs'); continue
            bad = run_concrete(k, mods, v, rng.random())
            if bad is None: continue
            res['runs'] += 1
            if bad:
                res['violation'] = dict(function=k.name, inputs={n: str(x) for n, x in v.items()}, mismatch=bad[:8]); break
        except Absent: raise
        except (Unsupported, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, z3.Z3Exception, EvalError) as e:
            res['errors'].append('%s: %s' % (type(e).__name__, str(e)[:200]))
            if opts.get('debug'): traceback.print_exc()
            if len(res['errors']) > 10: break
        finally: TM.EXPAND[0] = 0; TM.CONC[0] = False
    return res

def search(k, mods, opts, und):
    """bounded symbolic check at small sizes (all real data), then concrete replay"""
    out = dict(violation=None, bounded_sizes=[], bounded_ok=0, runs=0, errors=[])
    rng = random.Random(zlib.crc32(k.name.encode()) + opts.get('seed', 1)); cache = {}
    prefers = []
    for v, r in und:
        if r.model is not None:
            m, tr = r.model
            pf = {}
            for t in list(tr.m):
                if t.op == 'sym' and not t.sort.startswith('A'):
                    x = z3val(m, tr.m[t])
                    if x is not None: pf[t.args[0]] = x
                if t.op == 'sel':
                    i = z3val(m, tr.m[t.args[1]]) if t.args[1] in tr.m else None
                    x = z3val(m, tr.m[t])
                    if x is not None and i is not None: pf['%s[%s]' % (t.args[0].args[0], i)] = x
            prefers.append(pf)
    t0 = time.time(); seen = set()
    for rd in range(opts.get('bounded', 6)):
        if time.time() - t0 > opts.get('blimit', 60): break
        try:
            sz = pick_sizes(k, mods, rng, cache, prefers[rd] if rd < len(prefers) else None)
            if sz is None: continue
            if max([abs(x) for x in sz.values()] + [0]) > 8: continue
            key = tuple(sorted(sz.items()))
            if key in seen: continue
            seen.add(key)
            TM.EXPAND[0] = 64
            ex, env, reqs, vcs, info = generate(k, mods, val=dict(sz), unroll=40)
            okc = True
            for v in vcs:
                r = prove(list(ex.facts) + list(v.hyps), v.goal, timeout=3000)
                if r.status == 'refuted':
                    okc = False
                    m, tr = r.model; pf = dict(sz)
                    for t in scal_syms(env):
                        x = z3val(m, tr(t))
                        if x is not None: pf[t.args[0]] = x
                    prefers.insert(0, pf)
                    break
                if not r: okc = False
            out['bounded_sizes'].append({a: b for a, b in sz.items()})
            if okc: out['bounded_ok'] += 1
        except Absent: raise
        except (Unsupported, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as e:
            out['errors'].append('bounded: %s: %s' % (type(e).__name__, str(e)[:200]))
            if opts.get('debug'): traceback.print_exc()
        finally: TM.EXPAND[0] = 0
    c = concrete(k, mods, opts, opts.get('cruns', 40), opts.get('climit', 45), prefers)
    out['runs'] = c['runs']; out['violation'] = c['violation']; out['errors'] += c['errors']
    return out

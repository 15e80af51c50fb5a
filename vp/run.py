"""Driver: python3-vt -m vp.run <property> [quick|thorough]"""
import sys, os, time, json, signal, zlib, re, importlib, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build
from . import contract as CT, verify as VF, prove as PR, intrin
from .props import PROPS

class TimeUp(BaseException): pass
def _alarm(*a):
    signal.alarm(2)      # again, should the exception be lost in a destructor
    raise TimeUp()
MODS = None; OPTS = {}
def _go(n, part=(0, 1)):
    try: return _go1(n, part)
    except TimeUp: pass
    finally: signal.alarm(0)
    return dict(function=n, status='timeout', reason='time limit', obligations=0, discharged=0, applied=[], inlined=[], externals=[], failed=[], validations=0, solver_time=0, loops=0)
def _go1(n, part):
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(OPTS.get('hard', 200))
    t0 = time.time()
    try: r = VF.verify(CT.REG[n], MODS, dict(OPTS, part=part))
    except TimeUp: r = dict(function=n, status='timeout', reason='time limit', obligations=0, discharged=0, applied=[], inlined=[], externals=[], failed=[], validations=0, solver_time=0, loops=0)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        r = dict(function=n, status='error', reason='%s: %s' % (type(e).__name__, str(e)[:300]), obligations=0, discharged=0, applied=[], inlined=[], externals=[], failed=[], validations=0, solver_time=0, loops=0)
    finally: signal.alarm(0)
    r['wall'] = round(time.time() - t0, 2)
    return r

def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) function=(\S.*?) \| (.*)$', l)
                if m: out.append(m.groups())
    return out

def main(pid, tier):
    global MODS, OPTS
    t0 = time.time()
    P = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for m in P['mods']: importlib.import_module('vp.contracts.' + m)
    names = P['functions']() if callable(P['functions']) else list(P['functions'])
    srcs = []
    for m in P['mods']:
        for s in importlib.import_module('vp.contracts.' + m).SRC:
            if s not in srcs: srcs.append(s)
    OPTS = dict(seed=seed, validate=3 if tier == 'quick' else 40, vlimit=6.0 if tier == 'quick' else 60.0, timeout=8000 if tier == 'quick' else 30000,
                bounded=6 if tier == 'quick' else 24, cruns=40 if tier == 'quick' else 300, climit=40 if tier == 'quick' else 200, blimit=40 if tier == 'quick' else 200,
                hard=300 if tier == 'quick' else 900, vmax=240 if tier == 'quick' else 800, tlimit=200 if tier == 'quick' else 700)
    wall = 780 if tier == 'quick' else 6000
    nothing = None
    try: MODS = build.modules(srcs)
    except build.BuildError as e:
        # the tree does not compile: nothing can be said about it
        print('BUILD-FAILED: ' + str(e)[-1500:]); MODS = []; nothing = str(e)[-300:]
    done = {}; res = []
    todo = [n for n in names if n in CT.REG and not CT.REG[n].trusted] if MODS else []
    missing = [n for n in names if n not in CT.REG]
    assert not missing, missing
    ctx = mp.get_context('fork')
    while todo:
        for n in todo: done[n] = None
        pool = ctx.Pool(min(8, len(todo)), maxtasksperchild=20)
        its = [(n, pool.apply_async(_go, (n, (q, CT.REG[n].o.get('split', 1))))) for n in sorted(todo, key=lambda n: -CT.REG[n].o.get('cost', 1)) for q in range(CT.REG[n].o.get('split', 1))]
        for n, it in its:
            try: r = it.get(max(1, wall - (time.time() - t0)))
            except mp.TimeoutError: r = dict(function=n, status='timeout', reason='wall limit', obligations=0, discharged=0, applied=[], inlined=[], externals=[], failed=[], validations=0, solver_time=0, loops=0)
            if done[n] is None: done[n] = r; res.append(r)
            else:
                w = max(done[n]['wall'], r['wall']) if 'wall' in done[n] and 'wall' in r else 0
                res[res.index(done[n])] = m = VF.merge(done[n], r); done[n] = m; m['wall'] = w
        pool.terminate(); pool.join()
        todo = sorted({c for r in res for c in r.get('applied', []) if c not in done and c in CT.REG and not CT.REG[c].trusted})
        if time.time() - t0 > wall: todo = []
    return report(pid, tier, seed, P, res, srcs, t0, nothing)

def report(pid, tier, seed, P, res, srcs, t0, nothing):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True); os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    viol = []; kf = known(); kfhit = []
    for r in res:
        if r['status'] in ('violation', 'nfif'):
            k = [x for x in kf if x[0] == pid and x[1] == r['function']]
            if k: kfhit.append(k[0]); continue
            viol.append(r)
    lines = []
    for r in viol:
        p = os.path.join(HERE, 'replay', '%s_%08x.json' % (pid, zlib.crc32(r['function'].encode())))
        json.dump(dict(property=pid, function=r['function'], status=r['status'], failed_obligations=r.get('failed'), reason=r.get('reason'), replay=r.get('replay'), bounded=r.get('bounded'),
                       how='inputs are named after the memory they initialise (self = object, aK = K-th argument); the mismatch lists the postconditions that the compiled code, executed on these inputs, does not satisfy'),
                  open(p, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, p, '' if r['status'] == 'violation' else ' no-failing-input-found'))
        print('# %s: %s %s' % (r['function'], r.get('failed') or r.get('reason'), (r.get('replay') or {}).get('mismatch', '') if isinstance(r.get('replay'), dict) else ''))
    by = {}
    for r in res: by.setdefault(r['status'], []).append(r['function'])
    ob = sum(r['obligations'] for r in res if r['status'] == 'proved'); di = sum(r['discharged'] for r in res if r['status'] == 'proved')
    app = sorted({a for r in res for a in r.get('applied', [])}); trusted = [a for a in app if CT.REG[a].trusted]
    ext = sorted({e for r in res for e in r.get('externals', []) or []})
    inl = sorted({e for r in res for e in r.get('inlined', []) or []})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=len(viol),
        coverage=dict(obligations=ob, discharged=di, checker_cmd='python3-vt -m vp.run %s %s' % (pid, tier),
            trusted_base=['clang/opt -O0 + mem2reg (LLVM IR of the current sources is what is verified)', 'vp symbolic executor, normaliser and reduction axioms', 'z3'] + ['assumed contract: ' + t for t in trusted],
            functions_proved=sorted(by.get('proved', [])), functions_proved_count=len(by.get('proved', [])),
            bounded_only=[dict(function=r['function'], why=(r.get('reason') or '; '.join(r.get('failed') or []))[:300], bounded_sizes=len((r.get('bounded') or {}).get('bounded_sizes', [])), bounded_sizes_passed=(r.get('bounded') or {}).get('bounded_ok', 0), concrete_runs=(r.get('bounded') or {}).get('runs', 0)) for r in res if r['status'] in ('undecided', 'unsupported')],
            undecided=[dict(function=r['function'], status=r['status'], why=r.get('reason')) for r in res if r['status'] in ('timeout', 'error', 'vacuous', 'absent')],
            per_function=[dict(function=r['function'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'], loops_summarised=r.get('loops', 0), precondition_satisfiable=r.get('reachable'), concrete_validations=r.get('validations', 0), validation_errors=r.get('validation_errors') or [], solver_s=r.get('solver_time', 0), wall_s=r.get('wall', 0)) for r in res],
            inlined_functions=len(inl), external_models_used=ext, sources=srcs, solver_time_s=round(sum(r.get('solver_time', 0) for r in res), 2),
            backends=dict(z3_queries=sum(r.get('queries', 0) or 0 for r in res), internal_normaliser=sum(r.get('syntactic', 0) or 0 for r in res)),
            concrete_validations=sum(r.get('validations', 0) for r in res), known_findings=[k[2] for k in kfhit]),
        assumptions=ASSUME + P.get('assumptions', []))
    if nothing: ev['coverage']['build_failed'] = nothing
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k in kfhit: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    print('%s: %d functions under contract: %s; obligations %d, discharged %d; %.1f s' % (pid, len(res), ', '.join('%s %d' % (k, len(v)) for k, v in sorted(by.items())), ob, di, time.time() - t0))
    for r in res:
        if r['status'] not in ('proved',): print('  [%s] %s: %s %s' % (r['status'], r['function'], (r.get('reason') or '')[:200], (r.get('failed') or [])[:2]))
    for l in lines: print(l)
    return 1 if lines else 0
ASSUME = ['double arithmetic is treated as exact real arithmetic, machine integers as mathematical integers; isnan/isinf are uninterpreted predicates',
          'distinct contract parameters denote disjoint objects unless the contract says otherwise',
          'MPI collectives are modelled as uninterpreted functions of the local contribution (every rank makes the same calls)',
          'BLAS/LAPACK, libm and libstdc++ containers behave as documented (models in vp/intrin.py)',
          'library is verified in the configuration that builds here (MPI on, deep checks on, GPU/RAJA/sparse solvers off)']
if __name__ == '__main__':
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try: rc = main(pid, tier)
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)

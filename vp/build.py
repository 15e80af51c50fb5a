"""Compile the current /repo sources to LLVM IR (what the proofs consume) on every run."""
import os, subprocess, tempfile, shutil, hashlib, concurrent.futures as cf, time
from . import ir
REPO = os.environ.get('HIOP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['-I' + HERE + '/support', '-I/usr/include/eigen3'] + ['-I%s/src/%s' % (REPO, d) for d in
      ('Interface', 'ExecBackends', 'Optimization', 'LinAlg', 'Utils', '_Internals')] + \
      ['-I/usr/include/suitesparse', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
WORK = None
def workdir():
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix='vphiop.')
        import atexit; atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))
    return WORK
class BuildError(Exception): pass
def compile_one(src):
    w = workdir(); base = os.path.join(w, hashlib.md5(src.encode()).hexdigest()[:8] + '_' + os.path.basename(src))
    p = src if src.startswith('/') else os.path.join(REPO, 'src', src)
    cc = ['clang++', '-std=gnu++14'] if not p.endswith('.c') else ['clang']
    r = subprocess.run(cc + INC + ['-fPIC', '-g', '-fstandalone-debug', '-O0', '-Xclang', '-disable-O0-optnone', '-w', '-emit-llvm', '-c', p, '-o', base + '.bc'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    r = subprocess.run(['opt', '-passes=sroa,mem2reg,loop-simplify', base + '.bc', '-o', base + '.2.bc'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    r = subprocess.run(['llvm-dis', base + '.2.bc', '-o', base + '.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    return base + '.ll'
_mods = {}
def modules(srcs):
    todo = list(dict.fromkeys(s for s in srcs if s not in _mods))
    with cf.ThreadPoolExecutor(8) as ex:
        for s, p in zip(todo, ex.map(compile_one, todo)): _mods[s] = p
    out = []
    for s in srcs:
        if isinstance(_mods[s], str): _mods[s] = ir.Module(_mods[s])
        out.append(_mods[s])
    return out

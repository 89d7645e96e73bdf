"""Builds harness executables from /verif sources and /repo's current working tree.
Objects are cached under /verif/build by content of every non-system dependency, so a rebuild
happens exactly when something that can change the object changed."""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'
INC = ['/usr/include/superlu-dist', '/usr/lib/x86_64-linux-gnu/openmpi/include',
       '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '/usr/include/hdf5/openmpi',
       '/usr/include/eigen3', '/usr/include/argparse', '/opt/vp/cmake/none',
       '/opt/vp/cmake/pybind11/include', '/opt/vp/cmake/fmt/include']
BASE = ['-std=c++17', '-UNDEBUG', '-fopenmp', '-DDNDS_USE_OMP', '-DNINSERT', '-D__DNDS_REALLY_COMPILING__',
        '-DOMPI_SKIP_MPICXX=1', '-w', '-pipe']

class BuildError(Exception):
    pass

_hash_cache = {}
_lock = threading.Lock()

def fhash(p):
    with _lock:
        if p in _hash_cache:
            return _hash_cache[p]
    try:
        with open(p, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = 'missing'
    with _lock:
        _hash_cache[p] = h
    return h

def flags_for(opt, extra):
    fl = list(BASE) + [opt]
    fl += ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'sim'), '-I' + os.path.join(VERIF, 'harness')]
    fl += extra
    fl += ['-I' + os.path.join(REPO, 'src')]
    for i in INC:
        fl += ['-isystem' if i.startswith('/usr/include') else '-I', i] if False else ['-isystem', i]
    return fl

_slots = threading.Semaphore(8)
_alone = threading.Lock()
_stems = {}

def compile_one(src, opt, extra):
    fl = flags_for(opt, extra)
    with _lock:
        lk = _stems.setdefault(json.dumps([src, fl]), threading.Lock())
    with lk:  # harnesses share objects: compile each once
        return _compile_one(src, fl)

def _compile_one(src, fl):
    key = hashlib.sha256(json.dumps([src, fl, CXX]).encode()).hexdigest()[:24]
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    stem = os.path.join(objdir, os.path.basename(src).replace('.', '_') + '-' + key)
    obj, meta = stem + '.o', stem + '.json'
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj, False
        except ValueError:
            pass
    tmp = stem + '.tmp%d_%d' % (os.getpid(), threading.get_ident())
    d = tmp + '.d'
    cmd = [CXX] + fl + ['-MMD', '-MF', d, '-c', src, '-o', tmp]
    with _slots:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and 'Killed' in r.stdout:  # short of memory: once more, one at a time
        with _alone:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        for f in (tmp, d):
            if os.path.exists(f):
                os.remove(f)
        raise BuildError('compilation of %s failed:\n%s' % (src, r.stdout[-4000:]))
    txt = open(d).read().replace('\\\n', ' ')
    deps = txt.split(':', 1)[1].split()
    os.remove(d)
    json.dump({p: fhash(p) for p in deps}, open(meta + '.tmp', 'w'))
    os.rename(tmp, obj)
    os.rename(meta + '.tmp', meta)
    return obj, True

def build(name, srcs, libs=(), opt='-O1', extra=(), jobs=8):
    """srcs: list of paths or (path, opt, extra) tuples."""
    todo = []
    for s in srcs:
        if isinstance(s, tuple):
            todo.append((s[0], s[1] or opt, list(extra) + list(s[2])))
        else:
            todo.append((s, opt, list(extra)))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda t: compile_one(*t), todo))
    objs = [r[0] for r in res]
    bindir = os.path.join(BUILD, 'bin')
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, name)
    stamp = hashlib.sha256(json.dumps([[o, os.path.getmtime(o)] for o in objs] + list(libs)).encode()).hexdigest()
    if os.path.exists(exe) and os.path.exists(exe + '.stamp') and open(exe + '.stamp').read() == stamp:
        return exe
    cmd = [CXX, '-fopenmp', '-rdynamic', '-o', exe + '.tmp'] + objs + list(libs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('link of %s failed:\n%s' % (name, r.stdout[-6000:]))
    os.rename(exe + '.tmp', exe)
    open(exe + '.stamp', 'w').write(stamp)
    return exe

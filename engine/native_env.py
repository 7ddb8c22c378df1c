"""Makes the real eventio importable as it is in the working tree (compiled modules rebuilt when stale)."""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
EXT = [('eventio.header', 'header'), ('eventio.var_int', 'var_int'), ('eventio.simtel.parsing', 'simtel/parsing')]


def _so(base):
    d, n = os.path.split(base)
    for f in (os.listdir(d) if os.path.isdir(d) else ()):
        if f.startswith(n + '.') and f.endswith('.so'):
            return os.path.join(d, f)
    return None


def stale():
    """(module, rel) of the compiled modules that do not belong to the current source"""
    out = []
    st = os.path.join(REPO, 'build', 'vp-stamps')
    for mod, rel in EXT:
        pyx = os.path.join(REPO, 'src', 'eventio', rel + '.pyx')
        so = _so(os.path.join(REPO, 'src', 'eventio', rel))
        ok = False
        if so is not None and os.path.exists(pyx):
            ok = stamp_ok(st, mod, rel, pyx, so)
        if not ok:
            out.append((mod, rel))
    return out


def sha(b):
    return hashlib.sha256(b).hexdigest()


def stamp_ok(st, mod, rel, pyx, so):
    """the build's own record says the object file comes from the current source"""
    try:
        key = sha((build_common() + sha(open(pyx, 'rb').read()) + '  src/eventio/%s.pyx\n' % rel).encode())
        with open(os.path.join(st, 'src_eventio_' + rel.replace('/', '_'))) as f:
            return f.read().strip() == key
    except OSError:
        return False


def build_common():
    meta = ''.join(sha(open(os.path.join(REPO, f), 'rb').read()) + '  %s\n' % f for f in ('setup.py', 'pyproject.toml'))
    hs = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.pxd', '.pxi', '.h')):
                hs.append(os.path.relpath(os.path.join(d, f), REPO))
    common = '\n'.join(sha(open(os.path.join(REPO, f), 'rb').read()) + '  ' + f for f in sorted(hs))
    return sha(meta.encode()) + ' ' + common + '\n'


_done = {}


def setup():
    """import path of the real package; returns a note"""
    if 'src' in _done:
        return _done['src']
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    bad = stale()
    src = os.path.join(REPO, 'src')
    if bad:
        src = rebuild(bad)
    _done['src'] = src
    sys.path[:] = [p for p in sys.path if os.path.realpath(p) != os.path.realpath(os.path.join(REPO, 'src'))]
    sys.path.insert(0, src)
    return src


def rebuild(bad):
    tmp = tempfile.mkdtemp(prefix='verif-src-')
    owner = os.getpid()
    atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True) if os.getpid() == owner else None)
    dst = os.path.join(tmp, 'src')
    shutil.copytree(os.path.join(REPO, 'src'), dst, ignore=shutil.ignore_patterns('__pycache__', '*.c'))
    import numpy as np
    import sysconfig
    inc = ['-I' + np.get_include(), '-I' + sysconfig.get_paths()['include']]
    suf = sysconfig.get_config_var('EXT_SUFFIX')
    procs = []
    for mod, rel in bad:
        base = os.path.join(dst, 'eventio', rel)
        if not os.path.exists(base + '.pyx'):
            continue
        so = _so(base)
        if so:
            os.unlink(so)
        cmd = ('%s -m cython -3 --module-name %s %s.pyx -o %s.c && gcc -O1 -shared -fPIC -w '
               '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION %s %s.c -o %s%s'
               % (sys.executable, mod, base, base, ' '.join(inc), base, base, suf))
        procs.append((mod, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for mod, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise RuntimeError('cannot build %s: %s' % (mod, out.decode(errors='replace')[-2000:]))
    return dst

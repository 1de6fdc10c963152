"""Builds an instrumented private copy of /repo's working tree plus the simulator runtime.

Nothing is written inside /repo.  The instrumented build is the repository's own meson build, with
  -fsanitize-coverage=trace-pc          a callback at every basic block (preemption points inside nogil kernels)
  -Wl,--wrap=malloc,... PyEval_*        the allocator and GIL seams
and libsimcore linked into every extension module.  The result is cached under .build/<hash of the sources>.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VSIM_REPO', '/repo')
CACHE = os.environ.get('VSIM_CACHE', os.path.join(VERIF, '.build'))
VENV = '/opt/venv'
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'PyEval_SaveThread', 'PyEval_RestoreThread']


def repo_files():
    out = []
    for top in ('pywt', 'util'):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__', 'build'))
            for f in sorted(files):
                if not f.endswith(('.pyc', '.so')):
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    for f in ('meson.build', 'pyproject.toml', 'README.rst', 'LICENSE'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def digest(files):
    h = hashlib.sha256()
    for root, fs in ((REPO, files), (HERE, ['rt/core.c', 'rt/core.h', 'rt/simrt.c', 'build.py'])):
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(os.path.join(root, f), 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise SystemExit('HARNESS-ERROR: build failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_rt(dst, env):
    inc = sysconfig_include()
    run(['gcc', '-O2', '-g', '-fPIC', '-shared', '-o', dst + '/libsimcore.so', HERE + '/rt/core.c', '-ldl', '-lpthread', '-lm'],
        env=env)
    np_inc = run([VENV + '/bin/python', '-c', 'import numpy; print(numpy.get_include())'], env=env).strip()
    run(['gcc', '-O2', '-g', '-fPIC', '-shared', '-o', dst + '/simrt.so', HERE + '/rt/simrt.c', '-I', inc, '-I', np_inc,
         '-I', HERE + '/rt', '-L', dst, '-lsimcore', '-Wl,-rpath,$ORIGIN'], env=env)


def sysconfig_include():
    return run([VENV + '/bin/python', '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])']).strip()


def build(verbose=True):
    """Returns the directory to put first on sys.path (contains pywt/, simrt.so, libsimcore.so)."""
    files = repo_files()
    key = digest(files)
    final = os.path.join(CACHE, key)
    if os.path.exists(final + '/OK'):
        return final
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(final + '/OK'):
            return final
        for old in sorted(os.listdir(CACHE)):
            p = os.path.join(CACHE, old)
            if os.path.isdir(p) and (old.startswith('tmp') or len(os.listdir(CACHE)) > 40):
                shutil.rmtree(p, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp', dir=CACHE)
        try:
            src, bld, inst, out = (os.path.join(tmp, x) for x in ('src', 'bld', 'inst', 'out'))
            os.makedirs(out)
            for f in files:
                os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
                shutil.copy2(os.path.join(REPO, f), os.path.join(src, f))
            os.makedirs(src + '/pywt/tests', exist_ok=True)
            if not os.path.exists(src + '/pywt/version.py'):
                pass
            env = dict(os.environ, PATH=VENV + '/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       CC='gcc', LANG='C.UTF-8')
            env.pop('CFLAGS', None)
            env.pop('LDFLAGS', None)
            build_rt(out, env)
            link = ['-L' + out, '-Wl,--no-as-needed', '-lsimcore', '-Wl,-rpath,$ORIGIN/../..', '-Wl,-rpath,' + out]
            link += ['-Wl,--wrap=' + w for w in WRAPS]
            run(['meson', 'setup', bld, src, '--buildtype=plain', '-Db_lundef=false',
                 '-Dc_args=-O1 -fsanitize-coverage=trace-pc -w', '-Dc_link_args=' + ' '.join(link)], env=env)
            run(['ninja', '-C', bld], env=env)
            run(['meson', 'install', '-C', bld, '--no-rebuild', '--destdir', inst], env=env)
            pkg = None
            for d, dirs, fs in os.walk(inst):
                if d.endswith('/pywt') and '__init__.py' in fs:
                    pkg = d
            shutil.move(pkg, out + '/pywt')
            # rpath: the runtime sits one directory above the package
            with open(out + '/OK', 'w') as f:
                f.write(key)
            os.rename(out, final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return final


if __name__ == '__main__':
    print(build())

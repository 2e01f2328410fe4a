"""Build /repo's current working tree into /verif/build/<config>-<hash of sources>.

Uses the repository's own CMake files, so what is tested is what the project
ships.  The directory name contains a hash of every source/build file, so a
stale build can never be used; old directories are pruned."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, 'build')
SRC_DIRS = ['src', 'extra_src', 'include', 'oct', 'python', 'opencl', 'cmake', 'm_files', 'mex', 'julia', 'tests']
COMMON = ['-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
          '-DPython_EXECUTABLE=/usr/local/bin/python3', '-DBUILD_OCT=ON', '-DBUILD_PYTHON=ON',
          '-DBUILD_TESTS=OFF', '-DBUILD_MEX=OFF', '-DBUILD_JULIA=OFF', '-DBUILD_USERMAN=OFF']
CONFIGS = {
    'main': ['-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS=-Wno-error -w -g0', '-DUSE_OPENCL=OFF'],
    'cl': ['-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS=-Wno-error -w -g0', '-DUSE_OPENCL=ON'],
    'asan': ['-DCMAKE_BUILD_TYPE=RelWithDebInfo',
             '-DCMAKE_CXX_FLAGS=-Wno-error -w -g1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-omit-frame-pointer -fno-sanitize-recover=undefined',
             '-DUSE_OPENCL=OFF'],
    # the MATLAB gateways as MEX files of Octave, the Julia gateways as Python modules (see lib/gw)
    'gw': ['-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS=-Wno-error -w -g0', '-DUSE_OPENCL=OFF', '-DBUILD_OCT=OFF',
           '-DBUILD_PYTHON=OFF', '-DBUILD_MEX=ON', '-DBUILD_JULIA=ON', '-DCMAKE_FIND_PACKAGE_PREFER_CONFIG=ON',
           '-DMatlab_DIR=' + os.path.join(VERIF, 'lib/gw'), '-DJulia_DIR=' + os.path.join(VERIF, 'lib/gw'), '-DCXXWRAP_PREFIX=/nonexistent'],
    'gwcl': [],
    'tsan': ['-DCMAKE_BUILD_TYPE=RelWithDebInfo',
             '-DCMAKE_CXX_FLAGS=-Wno-error -w -g1 -fsanitize=thread', '-DUSE_OPENCL=OFF'],
}
CONFIGS['gwcl'] = [x.replace('USE_OPENCL=OFF', 'USE_OPENCL=ON') for x in CONFIGS['gw']]


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'CMakeLists.txt')]
    for d in SRC_DIRS:
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            files += [os.path.join(root, f) for f in sorted(fs)]
    for f in files:
        try:
            with open(f, 'rb') as fh:
                h.update(os.path.relpath(f, REPO).encode() + b'\0' + fh.read() + b'\1')
        except OSError:
            pass
    return h.hexdigest()[:16]


def env():
    e = dict(os.environ)
    for k in ('CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LANG='C.UTF-8', CC='gcc', CXX='g++')
    return e


def _run(cmd, log):
    with open(log, 'ab') as fh:
        r = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, env=env(), stdin=subprocess.DEVNULL)
    return r.returncode


def build(targets, config='main'):
    """Build ninja targets; return the build directory."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    d = os.path.join(BUILD, '%s-%s' % (config, key))
    if REPO != '/repo':
        d += '-x' + hashlib.sha256(REPO.encode()).hexdigest()[:6]
    with open(os.path.join(BUILD, '.lock-' + config), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for o in os.listdir(BUILD):                    # prune old builds of this config
            p = os.path.join(BUILD, o)
            if o.startswith(config + '-') and p != d and os.path.isdir(p):
                if time.time() - os.path.getmtime(p) > 1800:
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        log = os.path.join(d, 'vf-build.log')
        if not os.path.exists(os.path.join(d, 'build.ninja')):
            if _run(['cmake', '-S', REPO, '-B', d] + COMMON + CONFIGS[config], log):
                raise BuildError('cmake failed, see ' + log + '\n' + tail(log))
        if _run(['ninja', '-C', d] + list(targets), log):
            raise BuildError('build failed, see ' + log + '\n' + tail(log))
    return d


def tail(f, n=40):
    try:
        return ''.join(open(f, errors='replace').readlines()[-n:])
    except OSError:
        return ''

"""The OpenCL backend on the CPU device of the installed OpenCL platform (pocl)."""
import os, subprocess
from . import build, workers

TARGETS = {'cl': ['oct_das', 'oct_das_uni', 'oct_dreamrect', 'oct_dreamcirc', 'oct_rect_sir', 'py_das', 'py_das_f']}


def env(d, config='cl'):
    """d: the build directory"""
    so = os.path.join(d, 'vf-cl-shim.so')
    if not os.path.exists(so):
        tmp = '%s.%d' % (so, os.getpid())
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cl_shim.c')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', tmp, src, '-ldl'], check=True, capture_output=True)
        os.rename(tmp, so)
    cache = os.path.join(workers.TMP, 'pocl')
    os.makedirs(cache, exist_ok=True)
    return {'LD_PRELOAD': so, 'POCL_CACHE_DIR': cache, 'POCL_MAX_PTHREAD_COUNT': '2',
            'DREAM_CL_KERNELS': os.path.join(d, 'oct', 'kernels') if config == 'cl' else os.path.join(build.REPO, 'opencl')}


class ClCtx:
    """a Ctx whose default workers run the OpenCL build"""

    def __init__(self, ctx, config='cl'):
        self.ctx, self.config, self.tier, self.seed = ctx, config, ctx.tier, ctx.seed

    def py(self, config='main', env_=None, key='', env=None):
        return self.ctx.py(self.config, self.env(), 'cl' + key)

    def oct(self, config='main', env=None, key='', path=()):
        return self.ctx.oct(self.config, self.env(), 'cl' + key, path)

    def dir(self, config='main'):
        return self.ctx.dir(self.config)

    def env(self):
        return env(self.ctx.dir(self.config), self.config)

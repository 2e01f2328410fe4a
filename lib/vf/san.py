"""Running the cases of other checks on a sanitizer build."""
import functools, subprocess
from . import workers
from .core import Skip, Violation


@functools.lru_cache(None)
def lib(name):
    p = subprocess.run(['gcc', '-print-file-name=lib%s.so' % name], capture_output=True, text=True).stdout.strip()
    return p


def asan_env(fill=0xbe):
    return {'LD_PRELOAD': lib('asan') + ' ' + lib('ubsan'),
            'ASAN_OPTIONS': 'detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:allocator_may_return_null=1:'
                            'max_malloc_fill_size=268435456:malloc_fill_byte=%d:free_fill_byte=%d:max_free_fill_size=4096:quarantine_size_mb=64' % (fill, fill),
            'UBSAN_OPTIONS': 'print_stacktrace=1'}


def tsan_env():
    return {'LD_PRELOAD': lib('tsan'), 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1'}


class SanCtx:
    """a Ctx whose default workers run the sanitizer build"""

    def __init__(self, ctx, config='asan', env=None, key='', only=True):
        self.ctx, self.config, self.env, self.key = ctx, config, env or asan_env(), key
        self.tier, self.seed, self.check = ctx.tier, ctx.seed, ctx.check

    def py(self, config='main', env=None, key=''):
        return self.ctx.py(self.config, dict(self.env, **(env or {})), self.key + key)

    def oct(self, config='main', env=None, key='', path=()):
        return self.ctx.oct(self.config, dict(self.env, **(env or {})), self.key + key, path)

    def dir(self, config='main'):
        return self.ctx.dir(self.config)


def crashes_only(run):
    """run another check's case: what it returns does not matter here, only that no sanitizer report comes"""
    def f(c, ctx, *a, **k):
        try:
            r = run(c, ctx, *a, **k)
        except Violation:
            return 'differs', True
        except Skip as e:
            return 'skip ' + str(e), False
        return r if isinstance(r, tuple) else (r, True)
    return f

"""Runs a function in a forked process whose file operations are numbered and made to fail (see shim.c).

require() must be called when the check's module is imported: it restarts the interpreter with the injector loaded."""
import ctypes
import mmap
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
KILL_BEFORE, KILL_AFTER, TEAR, FAIL, SHORT, FAIL_ON = 1, 2, 3, 4, 5, 6
NAMES = {1: 'dies before', 2: 'dies after', 3: 'dies within', 4: 'error', 5: 'short', 6: 'errors from'}
_lib = None


def require():
    global _lib
    if _lib is not None:
        return
    if 'YV_SHIM' not in os.environ:
        fd, so = tempfile.mkstemp(prefix='yv-shim-', suffix='.so', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        os.close(fd)
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(HERE, 'shim.c'), '-ldl'])
        env = dict(os.environ, YV_SHIM=so, LD_PRELOAD=so)
        os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)
    if _lib is None:
        so = os.environ.pop('YV_SHIM')
        _lib = ctypes.CDLL(so)
        _lib.yv_arm.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p]
        _lib.yv_disarm.argtypes = []
        if os.environ.pop('LD_PRELOAD', None):
            os.unlink(so)


class Result(object):
    """status: exit code or 137 when it died; ops: kinds of the operations met; taken: bit set of the steps that happened"""
    __slots__ = ('status', 'ops', 'taken', 'value')


def run(fn, root, plan):
    """Run fn() in a forked process under a plan [(at, how, arg)]; fn returns a small integer (0: success)."""
    mem = mmap.mmap(-1, 4096)
    buf = (ctypes.c_long * 512).from_buffer(mem)
    addr = ctypes.addressof(buf)
    steps = (ctypes.c_long * 12)(*([x for s in plan for x in s] + [0] * (12 - 3 * len(plan))))
    pid = os.fork()
    if not pid:
        code = 99
        try:
            _lib.yv_arm((os.path.realpath(root) + '/').encode(), ctypes.addressof(steps), len(plan), addr)
            try:
                code = fn()
            finally:
                _lib.yv_disarm()
        except BaseException:
            code = 98
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    r = Result()
    r.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 255
    n = buf[0]
    r.taken = buf[1]
    r.ops = ''.join(chr(buf[1 + i]) for i in range(1, min(n, 499) + 1))
    del buf
    mem.close()
    return r

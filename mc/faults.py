"""Control over the system calls that modify files (see shim/shim.c).

The check re-executes itself with the shim preloaded, so that every write,
open, truncation, rename etc. that any library issues below a directory can be
counted, be the last one of the process, or fail.
"""
import ctypes
import errno
import os
import pickle
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ('open', 'write', 'truncate', 'sync', 'rename', 'unlink', 'close',
         'read')
COUNT, CRASH, FAIL_ONCE, FAIL_ALL, SHORT = 1, 2, 3, 4, 5
READ_COUNT, READ_ONCE, READ_ALL, READ_SHORT = 6, 7, 8, 9
ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EDQUOT': errno.EDQUOT,
          'EACCES': errno.EACCES, 'EROFS': errno.EROFS}


def preload():
    """Restart the program with the shim, if that has not happened yet."""
    if os.environ.pop('DSCH_MC_SHIM', None):
        os.environ.pop('LD_PRELOAD', None)
        if not hasattr(ctypes.CDLL(None), 'shim_arm'):
            raise RuntimeError('shim is not loaded')
        return
    build = os.path.join(os.path.dirname(HERE), '.build')
    os.makedirs(build, exist_ok=True)
    target = os.path.join(build, 'shim.so')
    handle, tmp = tempfile.mkstemp(dir=build, suffix='.so')
    os.close(handle)
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp,
                    os.path.join(HERE, 'shim', 'shim.c'), '-ldl'],
                   check=True)
    os.rename(tmp, target)
    env = dict(os.environ, LD_PRELOAD=target, DSCH_MC_SHIM='1')
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)


def _lib():
    lib = ctypes.CDLL(None)
    lib.shim_count.restype = ctypes.c_long
    lib.shim_injected.restype = ctypes.c_long
    lib.shim_len.restype = ctypes.c_long
    lib.shim_len.argtypes = lib.shim_kind.argtypes = [ctypes.c_long]
    lib.shim_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long,
                             ctypes.c_int, ctypes.c_char_p]
    return lib


def arm(mode, directory, target=0, short=0, error='EIO'):
    _lib().shim_arm(mode, target, short, ERRNOS[error],
                    os.path.join(directory, '').encode())


def disarm():
    """Stop; return the operations seen and the number of injected faults."""
    lib = _lib()
    lib.shim_disarm()
    ops = [(KINDS[lib.shim_kind(i)], lib.shim_len(i))
           for i in range(lib.shim_count())]
    return ops, lib.shim_injected()


def in_child(func, timeout=120):
    """Run func in a forked process. Returns (exit status, result)."""
    handle, path = tempfile.mkstemp(prefix='dschmc-result.')
    os.close(handle)
    try:
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(timeout)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                out = open(path, 'wb')
                out.write(pickle.dumps(func()))
                code = 0
            except BaseException as err:
                out.write(pickle.dumps(repr(err)))
            finally:
                out.close()
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        with open(path, 'rb') as file_:
            data = file_.read()
        return status, pickle.loads(data) if data else None
    finally:
        os.unlink(path)


CRASHED = 77 << 8

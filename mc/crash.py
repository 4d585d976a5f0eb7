"""Runs a function in a forked process which ends at its n-th change of the file system."""
import ctypes
import os
import pickle
import signal
import subprocess
import sys
import time

SOURCE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'crash.c')
EXIT_CODE = 77


def ensure_preloaded():
    """The library has to be loaded before everything else, so the check restarts itself once."""
    if 'MC_CRASH_LIBRARY' in os.environ:
        return
    folder = os.path.join('/tmp', f'mccrash.{os.getpid()}')
    os.makedirs(folder, exist_ok=True)
    library = os.path.join(folder, 'crash.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', library, SOURCE, '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=library, MC_CRASH_LIBRARY=library)
    code = subprocess.run([sys.executable, '-B', '-m', 'mc.run', *sys.argv[1:]], env=env).returncode
    os.unlink(library)
    os.rmdir(folder)
    sys.stdout.flush()
    os._exit(code if code >= 0 else 2)


def library():
    lib = ctypes.CDLL(None)
    lib.crash_arm.argtypes = (ctypes.c_long, ctypes.c_long)
    lib.crash_count.restype = ctypes.c_long
    lib.crash_kinds.restype = ctypes.c_char_p
    return lib


class Armed:
    def __init__(self, lib, n, torn):
        self.lib, self.n, self.torn = lib, n, torn

    def start(self):
        self.lib.crash_arm(self.n, self.torn)


def run_child(function, n=-1, torn=0, timeout=60):
    """function(arm) runs in a child process and calls arm() when the counting should begin.

    Returns ('crashed', None), or ('done', (kinds, result)) when the end was reached."""
    lib = library()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            signal.alarm(timeout)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            result = function(lambda: lib.crash_arm(n, torn))
            lib.crash_disarm()
            data = pickle.dumps((lib.crash_kinds(), result))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException as e:
            lib.crash_disarm()
            import traceback
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps((b'', ('exception', traceback.format_exc()))))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == EXIT_CODE:
        return 'crashed', None
    if not os.WIFEXITED(status) or os.WEXITSTATUS(status) != 0 or not data:
        raise RuntimeError(f'child ended with status {status}')
    return 'done', pickle.loads(data)


def points(kinds, torn=True):
    """All (n, torn) to be tried"""
    for n, kind in enumerate(kinds):
        yield n, 0
        if torn and kind == ord('w'):
            yield n, 1
            if torn == 'all':
                yield n, 2
                yield n, 3

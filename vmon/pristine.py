"""Runs calls in a process that has executed nothing of the code under test but its import."""
import os, pickle, signal, struct, sys
from . import core


class Pristine:
    """A child process forked before any work; every request is served by a fresh fork of it."""
    def __init__(self, fn):
        self.fn = fn
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1]); os.close(b[0])
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self._serve(a[0], b[1])
            finally: os._exit(0)
        os.close(a[0]); os.close(b[1])
        self.w, self.r = a[1], b[0]

    @staticmethod
    def _read(fd):
        def exactly(n):
            out = b""
            while len(out) < n:
                x = os.read(fd, n - len(out))
                if not x: raise EOFError
                out += x
            return out
        return exactly(struct.unpack("<I", exactly(4))[0])

    @staticmethod
    def _write(fd, data):
        data = struct.pack("<I", len(data)) + data
        while data: data = data[os.write(fd, data):]

    def _serve(self, r, w):
        while True:
            try: req = self._read(r)
            except EOFError: return
            pid = os.fork()
            if pid == 0:
                sys.stdout = core.SINK
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0); signal.alarm(50)
                    res = ("ok", self.fn(pickle.loads(req)))
                except BaseException as e: res = ("err", f"{type(e).__name__}: {e}")
                try: self._write(w, pickle.dumps(res))
                finally: os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, req):
        self._write(self.w, pickle.dumps(req))
        return pickle.loads(self._read(self.r))


class Elsewhere(Pristine):
    """The same in an interpreter of its own, whose strings hash differently."""
    def __init__(self, module, fn, hashseed):
        import subprocess
        a, b = os.pipe(), os.pipe()
        code = ("import sys; sys.path.insert(0, %r)\nimport importlib\nfrom vmon import core, pristine\nimport scipy.optimize, numpy; scipy.optimize.linprog\nm = importlib.import_module(%r)\n"
                "p = pristine.Pristine.__new__(pristine.Pristine); p.fn = getattr(m, %r); p._serve(%d, %d)" % (core.VERIF, module, fn, a[0], b[1]))
        self.proc = subprocess.Popen([sys.executable, "-c", code], pass_fds=(a[0], b[1]), env={**os.environ, "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1"},
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(a[0]); os.close(b[1])
        self.w, self.r = a[1], b[0]

"""A pristine process of the library that forks once per question.

The process has imported the library and done nothing else; every request is
answered by a fork of it, so the answer comes from a process without history.
It may have another hash seed than the simulated process."""
import atexit
import os
import pickle
import struct
import subprocess
import sys

LIMIT = 120         # seconds of processor time for one answer


class Remote(Exception):
    """The fresh process failed; args[0] is the traceback."""


class Zygote:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
                   OMP_NUM_THREADS='1')
        env['PYTHONPATH'] = os.pathsep.join(p for p in sys.path if p)
        self.p = subprocess.Popen([sys.executable, '-m', 'dst.zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        atexit.register(self.close)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()

    def ask(self, func, *args):
        """Result of dst.fresh.<func>(*args) in a process without history."""
        data = pickle.dumps((func, args))
        self.p.stdin.write(struct.pack('!I', len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(4)
        if len(head) < 4:
            raise RuntimeError('the fresh process is gone')
        n = struct.unpack('!I', head)[0]
        ok, res = pickle.loads(self.p.stdout.read(n))
        if not ok:
            raise Remote(res)
        return res


_all = {}


def get(hashseed):
    if hashseed not in _all:
        _all[hashseed] = Zygote(hashseed)
    return _all[hashseed]


def _serve():
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    from . import seams
    seams.install()
    from . import catalogue, fresh      # noqa: F401
    import resource
    import traceback
    seams.reset(0)
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        data = inp.read(struct.unpack('!I', head)[0])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CPU, (LIMIT, LIMIT))
                sys.stdout = open(os.devnull, 'w')
                try:
                    func, args = pickle.loads(data)
                    ans = (True, getattr(fresh, func)(*args))
                    blob = pickle.dumps(ans)
                except BaseException:
                    blob = pickle.dumps((False, traceback.format_exc()))
                with os.fdopen(w, 'wb') as f:
                    f.write(blob)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            blob = f.read()
        os.waitpid(pid, 0)
        if not blob:
            blob = pickle.dumps((False, 'the fresh process ended without an answer'))
        out.write(struct.pack('!I', len(blob)) + blob)
        out.flush()


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    _serve()

"""
A fresh interpreter for every request: a server which has only imported the
package, and forks for each pickle it is given.
"""
import os
import pickle
import struct
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _read(f, n):
    out = b''
    while len(out) < n:
        part = f.read(n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def serve():
    from . import worlds
    stdin, stdout = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(2, 1)
    # Lazy parts of sympy, with names which are not used by any check
    import gc
    from symfit import Parameter, Variable, Model, Fit
    import sympy
    m = Model({Variable('warm_y'): Parameter('warm_a') * sympy.exp(Variable('warm_x')) + 1})
    m.eval_hessian(warm_x=1.0, warm_a=2.0)
    repr(Parameter('warm_a').assumptions0), str(m)
    gc.collect()
    gc.freeze()
    gc.disable()
    while True:
        try:
            size, = struct.unpack('>I', _read(stdin, 4))
        except EOFError:
            return
        request = _read(stdin, size)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    observer, again, blob = pickle.loads(request)
                    obj = pickle.loads(blob)
                    if again:
                        obj = pickle.loads(pickle.dumps(obj, again))
                    answer = ('ok', worlds.OBSERVERS[observer](obj))
                except BaseException as err:
                    import traceback
                    answer = ('error', '{}: {}'.format(type(err).__name__, err), traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps(answer))
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            answer = f.read()
        os.waitpid(pid, 0)
        stdout.write(struct.pack('>I', len(answer)) + answer)
        stdout.flush()


class Fresh(object):
    """Client; one server per worker process."""
    servers = {}

    @classmethod
    def ask(cls, observer, blob, again=0):
        server = cls.servers.get(os.getpid())
        if server is None or server.poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED='7', PYTHONPATH=ROOT)
            server = cls.servers[os.getpid()] = subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-c', 'from mc.unpickle import serve; serve()'],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=ROOT)
        request = pickle.dumps((observer, again, blob))
        server.stdin.write(struct.pack('>I', len(request)) + request)
        server.stdin.flush()
        size, = struct.unpack('>I', _read(server.stdout, 4))
        return pickle.loads(_read(server.stdout, size))

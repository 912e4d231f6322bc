"""A process which has imported the code under test but used none of it.  Each request is run in a fork of its own, so
that it starts from the state the process has just after importing."""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback


class Zygote:

    def __init__(self, *modules):
        import mc.engine
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__), mc.engine.VERIF, mc.engine.REPO] + list(modules),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, module, function, *args):
        """('ok', result of the function), or ('raised', type name, text)"""
        _send(self.p.stdin.fileno(), (module, function, args))
        answer = _receive(self.p.stdout.fileno())
        if answer is None:
            raise RuntimeError('the process ended')
        return answer


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd, n):
    data = b''
    while len(data) < n:
        chunk = os.read(fd, n - len(data))
        if not chunk:
            return None
        data += chunk
    return data


def _receive(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    return pickle.loads(_read(fd, struct.unpack('>Q', head)[0]))


def serve():
    verif, repo = sys.argv[1:3]
    sys.path[0:1] = [verif, repo, os.path.join(repo, 'segpy-ext', 'segpy_numpy')]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/segpy-mc'
    import logging
    logging.disable(logging.CRITICAL)
    for module in sys.argv[3:]:
        importlib.import_module(module)
    sys.pycache_prefix = None
    while True:
        request = _receive(0)
        if request is None:
            return
        pid = os.fork()
        if pid == 0:
            module, function, args = request
            try:
                answer = ('ok', getattr(sys.modules[module], function)(*args))
            except BaseException as e:
                answer = ('raised', type(e).__name__, traceback.format_exc(limit=-6))
            try:
                _send(1, answer)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


if __name__ == '__main__':
    serve()

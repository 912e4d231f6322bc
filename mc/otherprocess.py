"""Another process, in which readers are unpickled.  Requests and answers are pickled, with a length before each."""
import os
import pickle
import struct
import subprocess
import sys


class OtherProcess:

    def __init__(self, version=None):
        import mc.engine
        args = [sys.executable, '-W', 'ignore', os.path.abspath(__file__), mc.engine.VERIF, mc.engine.REPO] + ([version] if version else [])
        self.p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, *request):
        send(self.p.stdin, request)
        return receive(self.p.stdout)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()


def send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack('>Q', len(data)) + data)
    f.flush()


def receive(f):
    head = f.read(8)
    if len(head) < 8:
        return None
    return pickle.loads(f.read(struct.unpack('>Q', head)[0]))


def serve():
    verif, repo = sys.argv[1:3]
    sys.path[0:1] = [verif, repo, os.path.join(repo, 'segpy-ext', 'segpy_numpy')]
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/segpy-mc'
    import logging
    logging.disable(logging.CRITICAL)
    import segpy
    if len(sys.argv) > 3:
        segpy.__version__ = sys.argv[3]
    import segpy.reader
    sys.pycache_prefix = None
    from mc import sut
    while True:
        request = receive(sys.stdin.buffer)
        if request is None:
            return
        data, protocol = request
        try:
            reader = pickle.loads(data)
        except Exception as e:
            answer = ('raised', type(e).__name__, str(e))
        else:
            try:
                where = reader._fh.tell()
                again = pickle.dumps(reader, protocol)
                answer = ('ok', type(reader).__name__, where, sut.observe_reader(reader), again)
                reader._fh.close()
            except Exception as e:
                answer = ('failed', type(e).__name__, str(e))
        send(sys.stdout.buffer, answer)


if __name__ == '__main__':
    serve()

"""Pristine-process oracle: runs a function in a child forked from a process
in which the code under test has been imported but never used."""
import os
import pickle
import struct
import sys


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv_n(fd, n):
    out = b''
    while len(out) < n:
        c = os.read(fd, min(1 << 20, n - len(out)))
        if not c:
            raise EOFError('pristine process died')
        out += c
    return out


def _recv(fd):
    n, = struct.unpack('<Q', _recv_n(fd, 8))
    return pickle.loads(_recv_n(fd, n))


class Zygote:
    """z = Zygote(f); z(args) == f(args), evaluated in a fresh fork."""

    def __init__(self, func):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            self._serve(func, r1, w2)
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w, self.pid = r2, w1, pid

    @staticmethod
    def _serve(func, r, w):
        while True:
            try:
                args = _recv(r)
            except EOFError:
                os._exit(0)
            if args is None:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    res = ('ok', func(*args))
                except BaseException as e:
                    import traceback
                    res = ('err', '%s: %s\n%s' % (
                        type(e).__name__, e, traceback.format_exc()[-1500:]))
                _send(w, res)
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, *args):
        _send(self.w, args)
        kind, val = _recv(self.r)
        if kind == 'err':
            raise RuntimeError(val)
        return val

    def close(self):
        _send(self.w, None)
        os.waitpid(self.pid, 0)

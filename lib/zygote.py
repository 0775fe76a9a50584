"""Evaluates things in processes that have done nothing else before.

A helper process is forked before the tested package is used; it forks one child per request.
"""
import ctypes
import os
import pickle
import struct


class Zygote:
    def __init__(self, func):
        """func: called with the request in a fresh process; its result has to be picklable."""
        to_r, to_w = os.pipe()
        from_r, from_w = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            ctypes.CDLL(None).prctl(1, 9)
            os.close(to_w)
            os.close(from_r)
            try:
                self._serve(func, os.fdopen(to_r, "rb"), from_w)
            finally:
                os._exit(0)
        os.close(to_r)
        os.close(from_w)
        self.send, self.recv = os.fdopen(to_w, "wb"), os.fdopen(from_r, "rb")

    @staticmethod
    def _serve(func, inp, out):
        while True:
            head = inp.read(8)
            if len(head) < 8:
                return
            request = pickle.loads(inp.read(struct.unpack("<q", head)[0]))
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    ctypes.CDLL(None).prctl(1, 9)
                    try:
                        data = pickle.dumps((True, func(request)))
                    except Exception as err:  # noqa
                        data = pickle.dumps((False, "%s: %s" % (type(err).__name__, str(err)[:300])))
                    with os.fdopen(out, "wb", closefd=False) as fh:
                        fh.write(struct.pack("<q", len(data)) + data)
                    code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if status:
                data = pickle.dumps((False, "the process ended with status %d" % status))
                with os.fdopen(out, "wb", closefd=False) as fh:
                    fh.write(struct.pack("<q", len(data)) + data)

    def __call__(self, request):
        data = pickle.dumps(request)
        self.send.write(struct.pack("<q", len(data)) + data)
        self.send.flush()
        size = struct.unpack("<q", self.recv.read(8))[0]
        return pickle.loads(self.recv.read(size))

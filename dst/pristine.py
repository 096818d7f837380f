"""Answers from a process in which nothing has happened yet.

The first call of start() forks a process that does nothing but fork again for every question, so each question is
answered by a copy of a process in which the library has been imported and never used."""
import os
import pickle
import signal
import struct
import traceback

from . import core

_up = {}


def start(answer):
    """`answer(request)` computes the reply; it must be given before the library is used."""
    if _up.get("pid") == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(w1)
        os.close(r2)
        try:
            serve(answer, r1, w2)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _up.update(pid=os.getpid(), child=pid, w=w1, r=r2)


def read(fd):
    head = exactly(fd, 8)
    if head is None:
        return None
    return exactly(fd, struct.unpack("<Q", head)[0])


def exactly(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def serve(answer, r, w):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    while True:
        req = read(r)
        if req is None:
            return
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(100)
                try:
                    out = ("answer", answer(pickle.loads(req)))
                except core.Skip as e:
                    out = ("skip", str(e))
                except BaseException:
                    out = ("error", traceback.format_exc())
                write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status != 0:
            write(w, pickle.dumps(("skip", "reference run too long")))


def ask(request):
    write(_up["w"], pickle.dumps(request))
    data = read(_up["r"])
    if data is None:
        raise core.HarnessError("the pristine process is gone")
    kind, value = pickle.loads(data)
    if kind == "skip":
        raise core.Skip(value)
    if kind == "error":
        raise core.HarnessError("pristine process: " + value)
    return value

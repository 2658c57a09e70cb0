"""Run jobs in child processes whose copy of the code under test has not been used before."""
import os
import pickle
import signal
import struct
import traceback

from .core import HarnessError

_zygote = None


def _read(fd, n):
    data = b''
    while len(data) < n:
        chunk = os.read(fd, n - len(data))
        if not chunk:
            return None
        data += chunk
    return data


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    head = _read(fd, 4)
    return None if head is None else pickle.loads(_read(fd, struct.unpack('>I', head)[0]))


def _work(fn, arg):
    signal.setitimer(signal.ITIMER_VIRTUAL, 50)
    try:
        return ('value', fn(arg))
    except BaseException as e:
        return ('error', traceback.format_exception(type(e), e, e.__traceback__)[-1].strip(), traceback.format_exc())


def _serve(jobs, results):
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    while True:
        job = _receive(jobs)
        if job is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _send(w, _work(*job))
            finally:
                os._exit(0)
        os.close(w)
        out = _receive(r)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        _send(results, out if out is not None else ('died', 'the process ended with status %d' % status, ''))


def start():
    """Fork the process all jobs are forked from, before the code under test is used here."""
    global _zygote
    if _zygote is not None and _zygote[0] == os.getpid():
        return
    jr, jw = os.pipe()
    rr, rw = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(jw)
        os.close(rr)
        try:
            _serve(jr, rw)
        finally:
            os._exit(1)
    os.close(jr)
    os.close(rw)
    _zygote = (os.getpid(), jw, rr)


def run(fn, arg):
    """fn(arg), computed in a pristine process: ('value', x) | ('error', text, traceback) | ('died', text, '')."""
    start()
    _, jobs, results = _zygote
    _send(jobs, (fn, arg))
    out = _receive(results)
    if out is None:
        raise HarnessError('the process the jobs are forked from is gone')
    return out

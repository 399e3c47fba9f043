"""Reference computations in processes without a past.

``Pristine()`` must be created before the run does anything with the code under test.  It forks a server that never runs that
code itself; for every request the server forks a child, which computes ``fn(*args)`` and sends back the result.  So a
reference cannot share a cache, a class attribute or a counter with the engines it is the reference for."""
import multiprocessing as mp
import os
import signal
import sys
import traceback


class PristineFailure(Exception):
    """The computation raised (or its process died) in a process without a past."""


class Pristine:
    def __init__(self):
        here, there = mp.Pipe(True)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            here.close()
            try:
                self._serve(there)
            finally:
                os._exit(0)
        there.close()
        self.conn = here

    @staticmethod
    def _serve(conn):
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        while True:
            try:
                fn, args = conn.recv()
            except (EOFError, OSError):
                return
            r, w = mp.Pipe(False)
            pid = os.fork()
            if pid == 0:
                r.close()
                conn.close()
                signal.alarm(200)
                try:
                    out = ("ok", fn(*args))
                except BaseException as e:  # noqa
                    out = ("raised", "".join(traceback.format_exception_only(type(e), e)).strip())
                try:
                    w.send(out)
                finally:
                    os._exit(0)
            w.close()
            try:
                out = r.recv()
            except EOFError:
                out = ("raised", "the process died")
            r.close()
            os.waitpid(pid, 0)
            conn.send(out)

    def __call__(self, fn, *args):
        self.conn.send((fn, args))
        what, out = self.conn.recv()
        if what != "ok":
            raise PristineFailure(out)
        return out

    def close(self):
        self.conn.close()
        os.waitpid(self.pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

"""A small process pool.  All workers are forked up front, before any thread
exists (a fork while another thread holds a lock can leave the child stuck)."""
from __future__ import annotations

import multiprocessing as mp
import multiprocessing.connection as mc
import os
import time


def _serve(fn, conn, inherited):
    for c in inherited:  # ends of the other workers' pipes
        c.close()
    while True:
        try:
            job = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        if job is None:
            os._exit(0)
        conn.send(fn(job))


class Pool:
    def __init__(self, n, fn):
        self.ctx = mp.get_context("fork")
        self.fn = fn
        self.idle, self.busy = [], {}
        for _ in range(n):
            self._start()

    def _start(self):
        a, b = self.ctx.Pipe()
        others = [c for c, _ in self.idle] + list(self.busy) + [a]
        p = self.ctx.Process(target=_serve, args=(self.fn, b, others),
                             daemon=True)
        p.start()
        b.close()
        self.idle.append((a, p))

    def submit(self, job):
        conn, p = self.idle.pop()
        conn.send(job)
        self.busy[conn] = (p, job, time.time())

    def wait(self, timeout, limit):
        """list of (job, result); the result is None when the worker died or
        exceeded the limit (seconds)"""
        out = []
        for conn in mc.wait(list(self.busy), timeout):
            p, job, _ = self.busy.pop(conn)
            try:
                out.append((job, conn.recv()))
                self.idle.append((conn, p))
            except (EOFError, OSError):
                out.append((job, None))
                conn.close()
                p.join(1)
                self._start()
        for conn, (p, job, t) in list(self.busy.items()):
            if time.time() - t > limit:
                del self.busy[conn]
                p.kill()
                p.join(1)
                conn.close()
                out.append((job, None))
                self._start()
        return out

    def close(self):
        for conn, p in self.idle:
            try:
                conn.send(None)
            except OSError:
                pass
        for p, _, _ in self.busy.values():
            p.kill()
        for _, p in self.idle:
            p.join(1)
            if p.is_alive():
                p.kill()

"""Theorems about the PML reader: an opened log in a symbolic state, and cases proved over it in parallel workers."""
import os
import pickle
import sys
import time
import traceback

import z3

from .core import *
from .values import *
from . import models, handlers, loops, verify, api, interp
from .interp import INTERP as I, HANDLERS, CALL_LOG


def fresh_file():
    n = C.fresh('len')
    C._assert(n >= 0)
    F = Base('F', n)
    return SBytes([('sl', F, 0, n)])


def fork_map(tasks, nproc, run):
    """Run every task in a forked worker (inheriting the verifier's state); yield (task, result)."""
    pending = list(enumerate(tasks))[::-1]
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < nproc:
            k, t = pending.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        out = ('ok', run(t))
                    except BaseException as e:
                        out = ('error', '%r\n%s' % (e, traceback.format_exc()))
                    with os.fdopen(w, 'wb') as fh:
                        pickle.dump(out, fh)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, k, t, bytearray())
        import select
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            pid, k, t, buf = running[r]
            d = os.read(r, 1 << 20)
            if d:
                buf += d
                continue
            os.close(r)
            del running[r]
            os.waitpid(pid, 0)
            try:
                results[k] = pickle.loads(bytes(buf))
            except Exception as e:
                results[k] = ('error', 'worker died: %r' % e)
    return [(t, results[k]) for k, t in enumerate(tasks)]

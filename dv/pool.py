"""one process per job, with a hard limit on each job and on all of them together"""
import multiprocessing as mp
import os
import signal
import time
from multiprocessing.connection import wait


def _child(fn, arg, conn, soft):
    from .core import OutOfTime

    def alarm(*_):
        raise OutOfTime()

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1, soft))
    try:
        r = fn(arg)
    except BaseException as e:  # noqa: BLE001
        r = ("error", f"{type(e).__name__}: {e}")
    signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        conn.send(r)
    except (BrokenPipeError, OSError):
        pass
    conn.close()
    os._exit(0)


def run(jobs, nproc, end):
    """jobs: (function, argument, seconds, result when there is no answer); returns results in
    order. A job gets its seconds (an exception ends it in an orderly way), then 45 more (it is
    ended and counts as unanswered); none runs beyond `end`."""
    ctx = mp.get_context("fork")
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    live = {}
    while todo or live:
        now = time.time()
        while todo and len(live) < nproc and now < end - 5:
            i = todo.pop(0)
            fn, arg, secs, none = jobs[i]
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, arg, b, min(secs, end - now - 20)))
            p.start()
            b.close()
            live[a] = (i, p, min(now + secs + 45, end))
        if not live:
            break
        for c in wait(list(live), timeout=0.5):
            i, p, _ = live.pop(c)
            try:
                res[i] = c.recv()
            except (EOFError, OSError):
                pass
            c.close()
            p.join()
        now = time.time()
        for c, (i, p, lim) in list(live.items()):
            if now > lim:
                p.kill()
                p.join()
                c.close()
                del live[c]
    return [jobs[i][3](r) if r is None or isinstance(r, tuple) else r
            for i, r in enumerate(res)]

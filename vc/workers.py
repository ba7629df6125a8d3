"""Runs jobs in processes of their own.  A solver call that ignores its time limit is ended and the job starts over with another random seed."""
import time, multiprocessing as mp
from multiprocessing.connection import wait
from . import engine

CTX = mp.get_context('fork')


def _child(fn, job, conn, beat, seed):
    import z3
    if seed:
        z3.set_param('smt.random_seed', seed)
        z3.set_param('sat.random_seed', seed)
    engine.HEART = beat
    try:
        conn.send(fn(job))
    finally:
        conn.close()


def run_jobs(fn, jobs, nproc, deadline, silence=75, attempts=3):
    """[(result or None)] in the order of jobs; None when the deadline passed or every attempt hung"""
    res = [None] * len(jobs)
    todo = [(k, 0) for k in range(len(jobs))]
    live = {}
    while todo or live:
        now = time.time()
        if now > deadline:
            for p, _, _, _ in live.values():
                p.kill()
            break
        while todo and len(live) < nproc:
            k, a = todo.pop(0)
            r, w = CTX.Pipe(False)
            beat = CTX.Value('d', now, lock=False)
            p = CTX.Process(target=_child, args=(fn, jobs[k], w, beat, a), daemon=True)
            p.start()
            w.close()
            live[r] = (p, beat, k, a)
        for r in wait(list(live), timeout=1):
            p, beat, k, a = live.pop(r)
            try:
                res[k] = r.recv()
            except EOFError:        # the process died (memory)
                if a + 1 < attempts:
                    todo.append((k, a + 1))
            p.join()
            r.close()
        for r, (p, beat, k, a) in list(live.items()):
            if time.time() - beat.value > silence:
                p.kill()
                p.join()
                r.close()
                del live[r]
                if a + 1 < attempts:
                    todo.insert(0, (k, a + 1))
    return res

"""Runs functions over cases in forked workers that can be killed when a case does not come back."""
import os, time, traceback, multiprocessing as mp
from multiprocessing.connection import wait

_ctx = mp.get_context("fork")


def _worker(conn, fn):
    import warnings, signal
    os.setpgrp()
    warnings.simplefilter("ignore")
    try:
        import numpy as np
        np.seterr(all="ignore")
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        k, case = job
        try:
            res = ("ok", fn(case))
        except BaseException as e:      # the verdict on an exception is the specification's
            res = ("raise", "%s: %s | %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:]))
        conn.send((k, res))
    os._exit(0)


class _W:
    def __init__(self, fn):
        self.fn = fn
        self.start()

    def start(self):
        self.conn, child = _ctx.Pipe()
        self.p = _ctx.Process(target=_worker, args=(child, self.fn), daemon=False)
        self.p.start()
        child.close()
        self.job = None
        self.t0 = 0

    def kill(self):
        try:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                self.p.kill()
            self.p.join(5)
        except Exception:
            pass
        self.conn.close()


def pmap(fn, cases, workers=8, timeout=60, fresh=False):
    """Returns one ("ok"|"raise"|"hang"|"died", value) per case, in order."""
    n = len(cases)
    out = [None] * n
    nxt = 0
    ws = [_W(fn) for _ in range(max(1, min(workers, n)))]
    done = 0
    try:
        while done < n:
            for w in ws:
                if w.job is None and nxt < n:
                    w.job, w.t0 = nxt, time.time()
                    w.conn.send((nxt, cases[nxt]))
                    nxt += 1
            ready = wait([w.conn for w in ws if w.job is not None], timeout=1.0)
            for w in ws:
                if w.job is None:
                    continue
                if w.conn in ready:
                    try:
                        k, res = w.conn.recv()
                        out[k] = res
                    except (EOFError, OSError):
                        out[w.job] = ("died", "worker process ended")
                        w.kill(); w.start()
                    else:
                        w.job = None
                        if fresh:
                            w.kill(); w.start()
                    done += 1
                    w.job = None
                else:
                    lim = cases[w.job].get("timeout", timeout) if isinstance(cases[w.job], dict) else timeout
                    if time.time() - w.t0 > lim:
                        out[w.job] = ("hang", "no answer within %s s" % lim)
                        w.kill(); w.start()
                        done += 1
    finally:
        for w in ws:
            try:
                w.conn.send(None)
            except Exception:
                pass
        for w in ws:
            w.p.join(2)
            if w.p.is_alive():
                w.kill()
    return out

"""Worker processes: run chunks of plans, survive a worker that dies or stalls.

Every worker is forked from the single-threaded parent, which runs no plan itself.  A chunk is a pure
function of (property, seed, range), so a chunk lost with its worker is simply
run again; which worker runs it does not matter.
"""

import collections
import faulthandler
import multiprocessing.connection as mpc
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

STALL = 180  # seconds without an answer before a worker is replaced
TRIES = 3    # attempts at one chunk
RECYCLE = 1  # chunks per worker process: every chunk starts from a fresh process, so
# that whatever library code leaves behind in the process is part of the chunk's history


class Worker:
    def __init__(self, fn, others):
        here, there = mp.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                here.close()
                for o in others:
                    o.conn.close()
                faulthandler.enable()
                faulthandler.register(signal.SIGUSR1, all_threads=True)
                while True:
                    try:
                        job = there.recv()
                    except EOFError:
                        break
                    there.send(fn(job))
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        there.close()
        self.conn, self.pid = here, pid
        self.job, self.since, self.done = None, 0.0, 0

    def stop(self, kill=False):
        self.conn.close()
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def isolated(fn, job, timeout=300):
    """fn(job) in a process forked for it; None if it died or did not end."""
    w = Worker(fn, [])
    try:
        w.conn.send(job)
        return w.conn.recv() if w.conn.poll(timeout) else None
    except (EOFError, OSError):
        return None
    finally:
        w.stop(True)


def run(fn, jobs, workers, deadline, bad):
    """Yield (index, result) as they come; stop early after a `bad` result.

    Once a bad result exists, jobs before it are still finished, so that the
    first bad one in job order is the one reported, whatever the timing.
    Raises TimeoutError at the deadline.
    """
    todo = collections.deque(enumerate(jobs))
    tries = collections.Counter()
    pool = []
    limit = len(jobs)

    def replace(w, kill):
        pool.remove(w)
        w.stop(kill)

    def retry(w, why):
        i, job = w.job
        tries[i] += 1
        print(f"note: worker {w.pid} {why} in chunk {i}; running the chunk again", flush=True)
        if tries[i] >= TRIES:
            raise RuntimeError(f"chunk {job} failed {TRIES} times: worker {why}")
        todo.appendleft((i, job))

    try:
        while True:
            while todo and todo[0][0] >= limit:
                todo.popleft()
            idle = [w for w in pool if w.job is None]
            while todo and (idle or len(pool) < workers):
                if idle:
                    w = idle.pop()
                else:
                    w = Worker(fn, pool)
                    pool.append(w)
                item = todo.popleft()
                w.job, w.since = item, time.monotonic()
                try:
                    w.conn.send(item[1])
                except OSError:
                    retry(w, "died")
                    replace(w, True)
            busy = [w for w in pool if w.job is not None and w.job[0] < limit]
            if not busy and not todo:
                return
            now = time.monotonic()
            if now > deadline:
                raise TimeoutError
            for c in mpc.wait([w.conn for w in busy], timeout=min(5.0, deadline - now + 0.1)):
                w = next(w for w in busy if w.conn is c)
                try:
                    res = c.recv()
                except (EOFError, OSError):
                    retry(w, "died")
                    replace(w, True)
                    continue
                i = w.job[0]
                w.job = None
                w.done += 1
                if w.done >= RECYCLE:
                    replace(w, False)
                if bad(res):
                    limit = min(limit, i)
                yield i, res
            now = time.monotonic()
            for w in list(pool):
                if w.job is not None and now - w.since > STALL:
                    os.kill(w.pid, signal.SIGUSR1)  # stacks to stderr
                    time.sleep(1)
                    retry(w, "stalled")
                    replace(w, True)
    finally:
        for w in pool:
            try:
                w.stop(True)
            except OSError:
                pass

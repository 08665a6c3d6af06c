"""A small process pool. Unlike multiprocessing.Pool it cannot hang: it shares no locks, notices a worker that was
killed from outside (the item is tried once more on a new worker), limits the time an item may take, and ends workers,
with everything they started, by SIGKILL."""
import multiprocessing.connection as mpc
import os
import signal
import sys
import time
import traceback

import harness


class _Worker:
    def __init__(self, init, fn, others):
        self.conn, theirs = mpc.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                for o in others:
                    o.conn.close()
                harness.worker_process()
                if init:
                    init()
                while True:
                    item = theirs.recv()
                    try:
                        r = (fn(item), None)
                    except Exception:
                        r = (None, traceback.format_exc())
                    theirs.send(r)
            except BaseException:
                pass
            finally:
                os._exit(0)
        theirs.close()
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        self.job = None

    def give(self, job):
        self.job = job
        self.since = time.time()
        try:
            self.conn.send(job[1])
        except OSError:
            pass        # it died: noticed as end of file

    def end(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        self.conn.close()


def run(fn, items, init=None, item_s=400):
    """Yield (item, result, error text or None) for each of the items, in their order. Close the generator to stop."""
    workers = []
    done, tries = {}, {}
    queue = []
    it = iter(items)
    given = out = 0
    more = True
    try:
        while True:
            while out in done:
                yield done.pop(out)
                out += 1
            while more and len(queue) + sum(w.job is not None for w in workers) < harness.NCPU and given - out < 4 * harness.NCPU:
                try:
                    queue.append((given, next(it)))
                    given += 1
                except StopIteration:
                    more = False
            for w in workers:
                if w.job is None and queue:
                    w.give(queue.pop(0))
            while queue and len(workers) < harness.NCPU:
                w = _Worker(init, fn, workers)
                workers.append(w)
                w.give(queue.pop(0))
            if out == given and not more:
                return
            busy = [w for w in workers if w.job is not None]
            for c in mpc.wait([w.conn for w in busy], 5):
                w = next(w for w in busy if w.conn is c)
                n, item = w.job
                try:
                    r, err = c.recv()
                    w.job = None
                    done[n] = (item, r, err)
                except (EOFError, OSError):
                    workers.remove(w)
                    w.end()
                    tries[n] = tries.get(n, 0) + 1
                    if tries[n] > 1:
                        done[n] = (item, None, 'the worker of a batch was killed twice')
                    else:
                        queue.insert(0, (n, item))
            for w in [w for w in workers if w.job is not None and time.time() - w.since > item_s]:
                workers.remove(w)
                w.end()
                done[w.job[0]] = (w.job[1], None, 'a batch took more than %d s' % item_s)
    finally:
        for w in workers:
            w.end()

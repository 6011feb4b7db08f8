"""Worker processes: forked by a single-threaded parent, one task at a time over a pipe.
A worker that dies or overruns its time is replaced; its task is tried once more, then given up."""
import os, pickle, select, signal, struct, time, resource, traceback

RECYCLE = 25
MEM = 6 << 30


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(fd, o):
    d = pickle.dumps(o, protocol=4)
    d = struct.pack("<Q", len(d)) + d
    while d:
        d = d[os.write(fd, d):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


class Worker:
    def __init__(self, others):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w0)
                os.close(r1)
                for o in others:
                    os.close(o.w)
                    os.close(o.r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                while True:
                    try:
                        fn, a = _recv(r0)
                    except EOFError:
                        os._exit(0)
                    try:
                        res = (True, fn(a))
                    except BaseException as e:
                        res = (False, "%s: %s" % (type(e).__name__, traceback.format_exc()[-500:]))
                    _send(w1, res)
            finally:
                os._exit(1)
        os.close(r0)
        os.close(w1)
        self.pid, self.w, self.r, self.n, self.job, self.t = pid, w0, r1, 0, None, 0

    def close(self, kill=False):
        os.close(self.w)
        os.close(self.r)
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(self.pid, 0)


class Pool:
    def __init__(self, jobs):
        self.jobs, self.ws, self.queue, self.res, self.next, self.tries = jobs, [], [], {}, 0, {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for w in self.ws:
            w.close(w.job is not None)
        self.ws = []

    def submit(self, fn, arg, limit, front=False):
        """id of the task; its result is (True, value) or (False, reason)"""
        i = self.next
        self.next += 1
        self.queue.insert(0 if front else len(self.queue), (i, fn, arg, limit))
        return i

    def _start(self):
        for w in [w for w in self.ws if w.job is None and w.n >= RECYCLE]:
            self.ws.remove(w)
            w.close()
        while self.queue:
            w = next((w for w in self.ws if w.job is None), None)
            if w is None:
                if len(self.ws) >= self.jobs:
                    return
                w = Worker(self.ws)
                self.ws.append(w)
            w.job, w.t = self.queue.pop(0), time.time()
            w.n += 1
            try:
                _send(w.w, (w.job[1], w.job[2]))
            except OSError:
                self._lost(w, "the worker ended")

    def _lost(self, w, why):
        job = w.job
        self.ws.remove(w)
        w.close(True)
        self.tries[job[0]] = self.tries.get(job[0], 0) + 1
        if self.tries[job[0]] < 2 and why != "time limit":
            self.queue.insert(0, job)
        else:
            self.res[job[0]] = (False, why)

    def step(self):
        self._start()
        busy = [w for w in self.ws if w.job is not None]
        if not busy:
            return
        rd, _, _ = select.select([w.r for w in busy], [], [], 1.0)
        for w in busy:
            if w.r in rd:
                try:
                    r = _recv(w.r)
                except EOFError:
                    self._lost(w, "the worker ended")
                    continue
                self.res[w.job[0]] = r
                w.job = None
            elif time.time() - w.t > w.job[3]:
                self._lost(w, "time limit")

    def wait(self, i):
        while i not in self.res:
            self.step()
        return self.res.pop(i)

    def any(self, ids):
        """wait for one of the tasks; returns (id, result)"""
        while True:
            for i in ids:
                if i in self.res:
                    return i, self.res.pop(i)
            self.step()

"""Instrumented sources and a delay-injecting queue for the prefetching checks."""
import os, queue, random, sys, threading, time
import numpy as np


class Chaos:
    """Injected delays: after queue operations, i.e. between the critical sections of producer and consumer, and, with
    lines > 0, before single lines of the scheduler code (up to `budget` seconds in all): in this thread ("consumer"), in
    the threads started from now on ("worker"), or in both. Delays on one side only let the other one pass through whole
    phases, such as the end of the stream, between two lines."""
    rate, scale, count, rng = 0.0, 0.0, 0, random.Random(0)
    lines, line_count, budget, line_scale = 0.0, 0, 0.0, 0.0

    @classmethod
    def set(cls, seed, rate, scale, lines=0.0, budget=1.0, who="both", line_scale=.016):
        cls.rng, cls.rate, cls.scale = random.Random(seed), rate, scale
        cls.lines, cls.budget, cls.line_scale = lines, budget, line_scale
        sys.settrace(cls._call if lines and who != "worker" else None)
        threading.settrace(cls._call if lines and who != "consumer" else None)

    @classmethod
    def hit(cls):
        if cls.rate and cls.rng.random() < cls.rate:
            cls.count += 1
            time.sleep(cls.rng.random() * cls.scale)

    @classmethod
    def _call(cls, frame, event, arg):
        return cls._line if cls.lines and _SCHED in frame.f_code.co_filename else None

    @classmethod
    def _line(cls, frame, event, arg):
        if event == "line" and cls.lines and cls.budget > 0 and cls.rng.random() < cls.lines:
            d = cls.rng.random() * cls.line_scale
            cls.line_count += 1
            cls.budget -= d
            time.sleep(d)
        return cls._line


_SCHED = os.sep + "scheduler" + os.sep


_Q = queue.Queue


class DelayQueue(_Q):
    def put(self, item, block=True, timeout=None):
        try:
            return _Q.put(self, item, block, timeout)
        finally:
            Chaos.hit()

    def get(self, block=True, timeout=None):
        try:
            return _Q.get(self, block, timeout)
        finally:
            Chaos.hit()

    # what these say may be out of date when the caller acts on it
    def empty(self):
        try:
            return _Q.empty(self)
        finally:
            Chaos.hit()

    def full(self):
        try:
            return _Q.full(self)
        finally:
            Chaos.hit()

    def qsize(self):
        try:
            return _Q.qsize(self)
        finally:
            Chaos.hit()


def install():
    queue.Queue = DelayQueue


def tagged(n, *tag):
    from synthpix.types import SchedulerData
    a = np.zeros((n, 1, 4, 2), np.float32)
    for i, t in enumerate(tag):
        a[:, 0, i, 0] = t
    a[:, 0, :, 1] = np.arange(n)[:, None]
    return SchedulerData(flow_fields=a, mask=np.ones(n, bool), files=tuple(f"{'-'.join(map(str, tag))}/{i}" for i in range(n)))


def tag_of(batch, k=2):
    a = np.asarray(batch.flow_fields)
    t = tuple(int(x) for x in a[0, 0, :k, 0])
    want = tagged(a.shape[0], *t)
    ok = np.array_equal(a, want.flow_fields) and batch.files == want.files and np.array_equal(batch.mask, want.mask)
    return t if ok else ("altered", t, batch.files)


class Source:
    """Non-episodic wrapped scheduler: batches (generation, serial), scripted delays, end and failures; full call log."""

    def __init__(self, length=None, delays=(0,), fail_at=None, exc=ValueError("boom"), gate=None, gate_at=None, once=None):
        self.once = once                 # a passing failure: the batch is 'kept' for the next call, or 'lost' with it
        self.length, self.delays, self.fail_at, self.exc = length, list(delays), fail_at, exc
        self.gate, self.gate_at = gate, gate_at
        self.gen, self.k = 0, 0
        self.lock = threading.Lock()
        self.inside = {}                 # thread ident -> call name
        self.overlaps, self.log, self.threads = [], [], []
        self.produced, self.ended, self.failed = [], 0, 0
        self.in_gate = threading.Event()
        self.file_list = ["x"]

    def _enter(self, what):
        me = threading.get_ident()
        with self.lock:
            if self.inside:
                self.overlaps.append((what, sorted(self.inside.values())))
            self.inside[me] = what
            self.log.append((what, me))
            if what == "get_batch" and me not in self.threads:
                self.threads.append(me)

    def _exit(self):
        with self.lock:
            self.inside.pop(threading.get_ident(), None)

    def get_batch(self, n):
        self._enter("get_batch")
        try:
            k = self.k
            d = self.delays[k % len(self.delays)]
            if d:
                time.sleep(d)
            if self.gate is not None and (self.gate_at is None or k == self.gate_at):
                self.in_gate.set()
                self.gate.wait(60)
            if self.fail_at is not None and k == self.fail_at:
                if not (self.once and self.failed):
                    self.failed += 1
                    if self.once == "lost":
                        self.k += 1
                    raise self.exc
            if self.length is not None and k >= self.length:
                self.ended += 1
                raise StopIteration
            self.k += 1
            b = tagged(n, self.gen, k)
            self.produced.append((self.gen, k))
            return b
        finally:
            self._exit()

    def reset(self):
        self._enter("reset")
        try:
            self.gen += 1
            self.k = 0
        finally:
            self._exit()

    def shutdown(self):
        pass

    def get_flow_fields_shape(self):
        return (1, 4, 2)


class EpisodicSource(Source):
    """Wrapped episodic scheduler: batches (episode, step)."""

    def __init__(self, L, **kw):
        super().__init__(**kw)
        self.L, self.ep, self.t, self.loads = L, 0, 0, 0

    @property
    def episode_length(self):
        return self.L

    def steps_remaining(self):
        return self.L - self.t

    def get_batch(self, n):
        from synthpix.scheduler.protocol import EpisodeEnd
        self._enter("get_batch")
        try:
            if self.t >= self.L:
                raise EpisodeEnd
            d = self.delays[self.loads % len(self.delays)]
            self.loads += 1
            if d:
                time.sleep(d)
            b = tagged(n, self.ep, self.t)
            self.t += 1
            self.produced.append((self.ep, self.t - 1))
            return b
        finally:
            self._exit()

    def next_episode(self):
        self._enter("next_episode")
        try:
            self.ep += 1
            self.t = 0
        finally:
            self._exit()

    def reset(self):
        self.next_episode()
        self.gen += 1


def wait_until(pred, timeout):
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        if pred():
            return True
        time.sleep(.002)
    return bool(pred())

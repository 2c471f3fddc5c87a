"""
The simulator core: virtual clock, event queue, choice stream, task scheduler.

Everything that may vary in a run is decided here, by one `Choices` stream seeded from
the plan; a run is a pure function of its plan (and of the code under test).
"""
import heapq, random, hashlib, re, threading, gc
import time as _time

real_perf = _time.perf_counter
real_time = _time.time

MS = 1000          # the clock counts microseconds
SEC = 1000000


class SimAbort(BaseException):
    """control flow of the simulator; passes through `except Exception` in the code under test"""


class Hang(SimAbort):
    """the code under test waits for something that cannot happen, or spins"""


class HarnessAbort(SimAbort):
    """the simulator itself failed"""


class CpuLoop(SimAbort):
    """the code under test burnt its CPU budget without finishing"""


class Violation(Exception):
    """a property does not hold"""
    def __init__(self, kind, detail=''):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """the machinery, not the code under test, is at fault"""


class Choices:
    """
    A stream of decisions.  Seeded: drawn from a PRNG and recorded.  With a trace:
    replayed; past the end of the trace every decision is 0, the plain choice.
    """
    __slots__ = ('rng', 'trace', 'pos', 'rec', 'limit')

    def __init__(self, seed=0, trace=None):
        self.rng = random.Random(seed)
        self.trace = trace
        self.pos = 0
        self.rec = []

    def below(self, n):
        if n <= 1:
            return 0
        if self.trace is not None:
            p = self.pos
            self.pos = p + 1
            v = self.trace[p] if p < len(self.trace) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n)
        self.rec.append(v)
        return v

    def chance(self, permille):
        """True with the given probability; 0 in the trace always means False"""
        if permille <= 0:
            return False
        if self.trace is not None:
            p = self.pos
            self.pos = p + 1
            v = 1 if (p < len(self.trace) and self.trace[p]) else 0
        else:
            v = 1 if self.rng.random() * 1000 < permille else 0
        self.rec.append(v)
        return v == 1

    def pick(self, seq):
        return seq[self.below(len(seq))]


class Task:
    __slots__ = ('name', 'fn', 'thread', 'sem', 'cond', 'deadline', 'done', 'exc', 'abort', 'what', 'started', 'timed_out')

    def __init__(self, name, fn):
        self.name = name; self.fn = fn
        self.sem = threading.Semaphore(0)
        self.cond = None; self.deadline = None
        self.done = False; self.exc = None; self.abort = None; self.what = ''
        self.started = False; self.timed_out = False


ADDRESS = re.compile(' at 0x[0-9a-f]+')


class Sim:
    def __init__(self, choices, max_steps=400000, keep_log=False):
        self.now = 0
        self.seq = 0
        self.q = []
        self.ch = choices
        self.stats = {}
        self.steps = 0
        self.max_steps = max_steps
        self.aborted = None
        self.hash = hashlib.sha256()
        self.keep_log = keep_log
        self.loglines = []
        self.nlog = 0
        self.multi = False
        self.tasks = []
        self.current = None
        self.main_sem = None
        self.gc_permille = 0
        self.epoch = 1700000000
        self.harness_error = None
        self.violations = []
        self.shape = hashlib.sha256()     # what happened, without payloads: counts distinct interleavings

    # -- bookkeeping (never draws a choice, never reads a real clock)
    def log(self, *a):
        s = ' '.join(map(str, a))
        if ' at 0x' in s:
            s = ADDRESS.sub(' at 0x*', s)       # addresses differ from process to process
        self.nlog += 1
        self.hash.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        if self.keep_log:
            self.loglines.append('%10.6f %s' % (self.now / SEC, s))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def mark(self, x):
        self.shape.update(x if isinstance(x, bytes) else x.encode())

    # -- time
    def time(self):
        return self.epoch + self.now / SEC

    def after(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.q, (self.now + max(0, int(delay)), self.seq, fn))

    def _step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort(Hang('step limit: no end after %d simulator steps' % self.max_steps))

    def abort(self, exc):
        if self.aborted is None:
            self.aborted = exc
        raise type(self.aborted)(*self.aborted.args)

    def _run_next(self):
        t, _, fn = heapq.heappop(self.q)
        if t > self.now:
            self.now = t
        try:
            fn()
        except Exception as e:
            # nothing of ours may surface inside the code under test as an ordinary exception
            import traceback
            self.harness_error = traceback.format_exc()
            if self.multi:
                self.aborted = self.aborted or HarnessAbort(self.harness_error)
                raise self.aborted
            self.abort(HarnessAbort(self.harness_error))

    def violate(self, kind, detail=''):
        """record a violation seen where an exception cannot be raised (server, network)"""
        self.violations.append((kind, str(detail)))
        self.log('VIOLATION', kind, detail)

    def maybe_gc(self):
        if self.gc_permille and self.ch.chance(self.gc_permille):
            self.count('gc_at_io')
            gc.collect()

    # -- blocking from inside client code
    def point(self):
        """a scheduling point that does not block"""
        if self.aborted is not None:
            self.abort(self.aborted)
        self._step()
        if self.multi and self.current is not None:
            self._yield(None, None, 'point')

    def block(self, cond, timeout=None, what=''):
        """wait until cond() or for timeout microseconds; True if cond() holds"""
        if self.aborted is not None:
            self.abort(self.aborted)
        deadline = None if timeout is None else self.now + int(timeout)
        if self.multi and self.current is not None:
            return self._yield(cond, deadline, what)
        while True:
            self._step()
            if cond():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            if self.q:
                if deadline is not None and self.q[0][0] > deadline:
                    self.now = deadline
                    return False
                self._run_next()
            elif deadline is not None:
                self.now = deadline
                return False
            else:
                self.abort(Hang('blocked for ever in ' + what))

    def drain(self, limit=None):
        """let everything in flight happen (called by the harness between operations)"""
        while self.q and (limit is None or self.q[0][0] <= limit):
            self._step()
            self._run_next()

    def sleep_us(self, us):
        self.block(lambda: False, us, 'sleep')

    # -- several client tasks, one of which runs at a time
    def _yield(self, cond, deadline, what):
        t = self.current
        t.cond = cond; t.deadline = deadline; t.what = what
        self.main_sem.release()
        t.sem.acquire()
        if t.abort is not None:
            raise t.abort
        if cond is None:
            return True
        return not t.timed_out

    def _task_main(self, t):
        t.sem.acquire()
        try:
            if t.abort is None:
                t.fn()
        except BaseException as e:
            t.exc = e
        t.done = True
        self.main_sem.release()

    def run_tasks(self, fns):
        """run the given (name, callable) pairs as concurrent client tasks"""
        self.multi = True
        self.main_sem = threading.Semaphore(0)
        self.tasks = [Task(n, f) for n, f in fns]
        old = threading.stack_size(1 << 20)
        for t in self.tasks:
            t.thread = threading.Thread(target=self._task_main, args=(t,), daemon=True)
            t.thread.start()
        threading.stack_size(old)
        try:
            self._schedule()
        finally:
            # unwind whatever is left
            for t in self.tasks:
                n = 0
                while not t.done:
                    t.abort = self.aborted or Hang('task abandoned')
                    if self.aborted is None:
                        self.aborted = t.abort
                    self.current = t
                    t.sem.release()
                    self.main_sem.acquire()
                    n += 1
                    if n > 1000:
                        raise HarnessError('task %s does not end' % t.name)
            self.current = None
            self.multi = False
        return self.tasks

    def _schedule(self):
        while True:
            self._step_sched()
            live = [t for t in self.tasks if not t.done]
            if not live:
                return
            run = []
            for t in live:
                if t.cond is None:
                    run.append((t, False))
                elif t.cond():
                    run.append((t, False))
                elif t.deadline is not None and self.now >= t.deadline:
                    run.append((t, True))
            nextt = self.q[0][0] if self.q else None
            n = len(run) + (1 if nextt is not None and (nextt <= self.now or not run) else 0)
            if run and nextt is not None and nextt > self.now:
                # with runnable tasks, time may also pass
                n = len(run) + 1
            if n == 0:
                dl = [t.deadline for t in live if t.deadline is not None]
                if dl:
                    self.now = max(self.now, min(dl))
                    continue
                self.aborted = Hang('all tasks blocked: ' + ', '.join('%s in %s' % (t.name, t.what) for t in live))
                return
            c = self.ch.below(n)
            if c < len(run):
                t, to = run[c]
                t.timed_out = to
                self.mark('T' + t.name)
                self.current = t
                t.sem.release()
                self.main_sem.acquire()
                self.current = None
                if self.aborted is not None:
                    return
            else:
                dl = [t.deadline for t in live if t.deadline is not None and t.deadline > self.now]
                if dl and min(dl) < nextt:
                    self.now = min(dl)
                else:
                    self._run_next()

    def _step_sched(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.aborted = Hang('step limit in scheduler')
            raise self.aborted

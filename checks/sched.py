"""Runs real threads of the package one at a time under a symbolic schedule.

Locks and events of the module under test are replaced by stand-ins that hand the baton back to
the scheduler; between them every source line of the module is a possible preemption point. Where
the scheduler switches is a symbolic number, so the solver ranges over all schedules with the
stated number of preemptions (switches away from a blocked or finished thread are free)."""
import sys
import threading


class Kill(BaseException):
    pass


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, env, preemptions, horizon, suffix="system/cache.py", skip=("_make_token", "_build_key", "<genexpr>"), opcodes=False, coarse=False):
        self.coarse, self.holding = coarse, 0
        self.env, self.horizon, self.suffix, self.skip, self.opcodes = env, horizon, suffix, skip, opcodes
        self.switch = [env.count("switch%d" % i, horizon) for i in range(preemptions)]
        for a, b in zip(self.switch, self.switch[1:]):
            env.assume(a < b)
        self.ws = []
        self.current = None
        self.steps = 0
        self.main = threading.Semaphore(0)
        self.dead = False

    # -- called by workers
    def point(self):
        w = self.current
        if w is None or threading.current_thread() is not w.thread:
            return
        if self.dead:
            raise Kill
        self.main.release()
        w.sem.acquire()
        if self.dead:
            raise Kill

    def block(self, ready):
        """wait until ready() holds"""
        w = self.current
        if w is None or threading.current_thread() is not w.thread:
            if not ready():
                raise Deadlock("blocked forever")
            return
        while not ready():
            if self.dead:
                raise Kill
            w.ready = ready
            self.main.release()
            w.sem.acquire()
            w.ready = None
            if self.dead:
                raise Kill

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.suffix) or frame.f_code.co_name in self.skip:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True

        def local(fr, ev, a):
            if (ev == "line" or ev == "opcode") and not (self.coarse and self.holding):
                self.point()
            return local

        return local

    # -- called by the harness
    def spawn(self, fn):
        w = Worker(self, fn)
        self.ws.append(w)
        return w

    def run(self):
        env = self.env
        for w in self.ws:
            w.thread.start()
        cur = self.pick("start", self.ws)
        left = list(self.switch)
        while True:
            self.steps += 1
            if self.steps > 4000:
                self.kill()
                env.fail("terminates", "still running after 4000 steps")
                return
            if left and bool(left[0] == self.steps):
                left.pop(0)
                others = [w for w in self.ws if w is not cur and w.runnable()]
                if others:
                    cur = self.pick("to%d" % self.steps, others)
            self.current = cur
            cur.sem.release()
            self.main.acquire()
            self.current = None
            if not cur.runnable():
                ready = [w for w in self.ws if w.runnable()]
                if not ready:
                    break
                cur = self.pick("next%d" % self.steps, ready)
        stuck = [i for i, w in enumerate(self.ws) if not w.done]
        if stuck:
            self.kill()
        for w in self.ws:
            w.thread.join()
        env.check("nobody-blocks-forever", not stuck, "callers %s wait for ever" % stuck)
        return not stuck

    def pick(self, name, ws):
        return self.env.choice(name, ws)

    def kill(self):
        self.dead = True
        for w in self.ws:
            while not w.done:
                self.current = w
                w.sem.release()
                self.main.acquire()
        self.current = None


class Worker:
    def __init__(self, s, fn):
        self.s, self.fn = s, fn
        self.sem = threading.Semaphore(0)
        self.ready = None
        self.done = False
        self.result = self.error = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def runnable(self):
        return not self.done and (self.ready is None or self.ready())

    def _main(self):
        self.sem.acquire()
        try:
            if self.s.coarse != "sync":
                sys.settrace(self.s._trace)
            self.result = self.fn()
        except Kill:
            pass
        except BaseException as e:  # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.s.main.release()


def primitives(s):
    """stand-ins for the synchronisation objects of the threading module"""

    class Lock:
        reentrant = False

        def __init__(self):
            self.owner, self.depth = None, 0

        def acquire(self, blocking=True, timeout=-1):
            me = threading.current_thread()
            if s.dead:
                raise Kill
            s.point()
            if self.reentrant and self.owner is me:
                self.depth += 1
                return True
            if self.depth and (not blocking or timeout >= 0):
                return False
            s.block(lambda: self.depth == 0)
            self.owner, self.depth = me, 1
            s.holding += 1
            return True

        def release(self):
            if s.dead:
                return
            if not self.depth:
                raise RuntimeError("release unlocked lock")
            self.depth -= 1
            if not self.depth:
                self.owner = None
                s.holding -= 1
            s.point()

        def locked(self):
            return bool(self.depth)

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        reentrant = True

    class Event:
        def __init__(self):
            self.flag = False

        def is_set(self):
            return self.flag

        def set(self):
            s.point()
            self.flag = True
            s.point()

        def clear(self):
            self.flag = False

        def wait(self, timeout=None):
            s.point()
            if timeout is None:
                s.block(lambda: self.flag)
            return self.flag

    class Condition:
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.acquire, self.release = self.lock.acquire, self.lock.release
            self.tickets = []

        def __enter__(self):
            return self.lock.acquire()

        def __exit__(self, *a):
            self.lock.release()

        def wait(self, timeout=None):
            t = [False]
            self.tickets.append(t)
            d, self.lock.depth, self.lock.owner = self.lock.depth, 0, None
            s.holding -= 1
            if timeout is None:
                s.block(lambda: t[0] and self.lock.depth == 0)
            else:
                s.point()
                s.block(lambda: self.lock.depth == 0)
            self.lock.owner, self.lock.depth = threading.current_thread(), d
            s.holding += 1
            return t[0]

        def wait_for(self, pred, timeout=None):
            while not pred():
                self.wait(timeout)
            return True

        def notify(self, n=1):
            for t in self.tickets[:n]:
                t[0] = True
            del self.tickets[:n]

        def notify_all(self):
            self.notify(len(self.tickets))

    return {"Lock": Lock, "RLock": RLock, "Event": Event, "Condition": Condition}


class Threading:
    """the threading module with stand-ins"""

    def __init__(self, table):
        self.__dict__.update(table)

    def __getattr__(self, name):
        return getattr(threading, name)


def install(env, s, modname="spey.system.cache"):
    from checks.common import swap_names

    m = env.mod(modname)
    table = primitives(s)
    swap_names(env, m, {threading: Threading(table), threading.Lock: table["Lock"], threading.RLock: table["RLock"], threading.Event: table["Event"], threading.Condition: table["Condition"]})
    return m

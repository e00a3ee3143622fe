"""Deterministic scheduling of real threads: every interleaving up to a bound on preemptions.

The code under test runs unchanged; the synchronisation primitives it creates are replaced by
scheduled ones and its lines are potential preemption points.  Only one thread runs at a time.
"""

import sys
import threading as real
import types


class Abort(BaseException):
    pass


class Sched:
    def __init__(self, v, files, preemptions=1, lines=True, skip=()):
        self.v, self.files, self.skip = v, files, skip
        self.budget, self.lines = preemptions, lines
        self.tasks, self.current, self.main = [], None, real.Semaphore(0)
        self.aborting = self.stuck = False
        self.steps = self.decisions = self.clock = 0
        self.error = None

    # primitives ---------------------------------------------------------------------
    def namespace(self):
        s = self

        class Lock:
            reentrant = False

            def __init__(self):
                self.owner, self.count = None, 0

            def free(self):
                return self.owner is None or (self.reentrant and self.owner is s.current)

            def acquire(self, blocking=True, timeout=-1):
                s.point()
                if not blocking and not self.free():
                    return False
                s.block(self.free)
                self.owner, self.count = s.current or s, self.count + 1
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.count -= 1
                if self.count == 0:
                    self.owner = None
                s.point()

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

        class RLock(Lock):
            reentrant = True

        class Event:
            def __init__(self):
                self.flag = False

            def is_set(self):
                return self.flag

            isSet = is_set

            def set(self):
                s.point()
                self.flag = True

            def clear(self):
                self.flag = False

            def wait(self, timeout=None):
                s.point()
                s.block(lambda: self.flag)
                return True

        class Condition:
            def __init__(self, lock=None):
                self.lock, self.tickets = lock or RLock(), []
                self.acquire, self.release = self.lock.acquire, self.lock.release

            def __enter__(self):
                return self.lock.__enter__()

            def __exit__(self, *a):
                return self.lock.__exit__(*a)

            def wait(self, timeout=None):
                t = [False]
                self.tickets.append(t)
                n, self.lock.count, self.lock.owner = self.lock.count, 0, None
                s.point()
                s.block(lambda: t[0] and self.lock.free())
                self.lock.owner, self.lock.count = s.current or s, n
                return True

            def wait_for(self, predicate, timeout=None):
                while not predicate():
                    self.wait()
                return predicate()

            def notify(self, n=1):
                for t in self.tickets[:n]:
                    t[0] = True
                del self.tickets[:n]

            def notify_all(self):
                self.notify(len(self.tickets))

        ns = types.SimpleNamespace(Lock=Lock, RLock=RLock, Event=Event, Condition=Condition)

        class Namespace(types.SimpleNamespace):
            def __getattr__(self, name):
                return getattr(real, name)

        return Namespace(**vars(ns))

    # scheduling ---------------------------------------------------------------------
    def ready(self):
        return [t for t in self.tasks if not t.done and (t.need is None or t.need())]

    def point(self):
        """A place where another thread may take over."""
        me = self.current
        if self.aborting and me is not None:
            raise Abort()
        if me is None or real.get_ident() != me.ident:
            return
        self.steps += 1
        if self.steps > 20000:
            self.give_up()
        me.run += 1
        others = [t for t in self.ready() if t is not me]
        if not others:
            return
        if me.run > 600:  # fairness: no thread spins forever
            self.switch(me)
            return
        if self.budget <= 0:
            return
        k = self.choose(1 + len(others))
        if k:
            self.budget -= 1
            self.next = others[k - 1]
            self.switch(me)

    def choose(self, n):
        self.decisions += 1
        return self.v.choice(f"schedule{self.decisions}", list(range(n)))

    def block(self, cond):
        me = self.current
        if me is None:
            if not cond():
                raise RuntimeError("the calling thread would wait forever")
            return
        while not cond():
            if self.aborting:
                raise Abort()
            me.need = cond
            self.switch(me)
            me.need = None

    def switch(self, me):
        me.run = 0
        self.main.release()
        me.sem.acquire()
        if self.aborting:
            raise Abort()

    def give_up(self):
        self.stuck = self.aborting = True
        raise Abort()

    def tracer(self, frame, event, arg):
        co = frame.f_code
        if not any(co.co_filename.endswith(f) for f in self.files) or co.co_name in self.skip:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def spawn(self, fn):
        t = types.SimpleNamespace(fn=fn, sem=real.Semaphore(0), done=False, need=None, run=0,
                                  ident=None)

        def body():
            t.ident = real.get_ident()
            t.sem.acquire()
            try:
                if not self.aborting:
                    if self.lines:
                        sys.settrace(self.tracer)
                    fn()
            except Abort:
                pass
            except BaseException as e:  # noqa: BLE001 - reported by run()
                self.error = self.error or e
            finally:
                sys.settrace(None)
                t.done = True
                self.main.release()

        t.thread = real.Thread(target=body, daemon=True)
        self.tasks.append(t)
        return t

    def run(self):
        """True when every thread has come to its end."""
        for t in self.tasks:
            t.thread.start()
        self.next = None
        while any(not t.done for t in self.tasks):
            ready = self.ready()
            if not ready or self.aborting:
                self.stuck = self.stuck or not ready
                self.aborting = True
                break
            nxt, self.next = self.next, None
            if nxt is None or nxt not in ready:
                nxt = ready[self.choose(len(ready))] if len(ready) > 1 else ready[0]
            self.current = nxt
            nxt.sem.release()
            self.main.acquire()
        if self.aborting:
            for t in self.tasks:
                if not t.done:
                    self.current = t
                    t.sem.release()
                    t.thread.join(2)
        self.current = None
        self.aborting = False
        if self.error is not None:
            raise self.error
        return not self.stuck

"""Assumed contract of queues and workers of the standard library, with the schedule in the hands of the scenario.

A worker runs only when the scenario (or a wait of the main program) lets it; it runs until it waits for a request or
ends.  Every queue counts requests and acknowledgements.
"""
import threading
REAL_THREAD = threading.Thread
REAL_LOCK = threading.Lock


class Deadlock(Exception):
    """the program waits for something that cannot happen"""


class Killed(BaseException):
    pass


class Bench:
    def __init__(self):
        self.workers, self.queues = [], []
        self.closed = False
        bench = self

        class Queue:
            def __init__(self, maxsize=0):
                self.items, self.put_count, self.got, self.done = [], 0, 0, 0
                self.overdone = False
                bench.queues.append(self)

            def put(self, x, block=True, timeout=None):
                self.items.append(x)
                self.put_count += 1

            put_nowait = put

            def get(self, block=True, timeout=None):
                while not self.items:
                    bench.wait()
                self.got += 1
                return self.items.pop(0)

            def task_done(self):
                self.done += 1
                if self.done > self.put_count:
                    self.overdone = True
                    raise ValueError('task_done() called too many times')

            def qsize(self):
                return len(self.items)

            def empty(self):
                return not self.items

            def join(self):
                for w in bench.workers:
                    if self.done < self.put_count:
                        w.step()
                if self.done < self.put_count and not bench.closed:
                    raise Deadlock('waiting for requests that nobody processes')

            def close(self):
                pass

            def join_thread(self):
                pass

            cancel_join_thread = close

        class Worker:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.started = self.ended = False
                self.exc = None
                self.daemon = daemon
                self.name = name
                self.turn, self.back = REAL_LOCK(), REAL_LOCK()
                self.turn.acquire()
                self.back.acquire()
                self.killed = False
                bench.workers.append(self)

            def start(self):
                if self.started:
                    raise RuntimeError('threads can only be started once')
                self.started = True

            def _main(self):
                self.turn.acquire()
                try:
                    if not self.killed:
                        self.target(*self.args, **self.kwargs)
                except BaseException as err:
                    self.exc = err
                self.ended = True
                self.back.release()

            def step(self):
                """let the worker run until it waits for a request or ends"""
                if not self.started or self.ended:
                    return
                if not hasattr(self, '_thread'):
                    self._thread = REAL_THREAD(target=self._main, daemon=True)
                    self._thread.start()
                self.turn.release()
                self.back.acquire()
                if self.exc is not None and type(self.exc).__module__ == 'dv.core':        # of the verifier
                    raise self.exc

            def wait(self):
                self.back.release()
                self.turn.acquire()
                if self.killed:
                    raise Killed()

            def is_alive(self):
                return self.started and not self.ended

            def join(self, timeout=None):
                if bench.closed:
                    return
                for _ in range(40):
                    self.step()
                    if not self.is_alive():
                        return
                if timeout is None:
                    raise Deadlock('waiting for a worker that waits for requests')

            def terminate(self):
                self.ended = True

            kill = terminate

            @property
            def exitcode(self):
                return None if self.is_alive() else int(self.exc is not None)

            def close(self):
                pass

        class Event:
            def __init__(self):
                self.flag = False

            def set(self):
                self.flag = True

            def clear(self):
                self.flag = False

            def is_set(self):
                return self.flag

            isSet = is_set

            def wait(self, timeout=None):
                if timeout is not None and not self.flag:
                    bench.rest()
                while timeout is None and not self.flag:
                    bench.wait()
                return self.flag

        class Lock:
            def __init__(self):
                self.owner, self.depth = None, 0

            def acquire(self, blocking=True, timeout=-1):
                me = threading.current_thread()
                while self.owner is not None and not (self.reentrant and self.owner is me):
                    if not blocking or timeout is not None and timeout >= 0:
                        return False
                    bench.wait()
                self.owner, self.depth = me, self.depth + 1
                return True

            def release(self):
                if self.owner is None:
                    raise RuntimeError('release unlocked lock')
                self.depth -= 1
                if not self.depth:
                    self.owner = None

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()
            reentrant = False

        class RLock(Lock):
            reentrant = True
        self.Queue, self.Worker, self.Event, self.Lock, self.RLock = Queue, Worker, Event, Lock, RLock
        import types
        import time
        self.threading = types.SimpleNamespace(Thread=Worker, Event=Event, Lock=Lock, RLock=RLock, current_thread=threading.current_thread,
                                               main_thread=threading.main_thread, get_ident=threading.get_ident)
        self.time = types.SimpleNamespace(sleep=lambda *a: bench.rest(), time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter)

    def acting(self):
        """the worker that runs now, None for the main program"""
        me = threading.current_thread()
        return next((w for w in self.workers if getattr(w, '_thread', None) is me), None)

    def rest(self):
        """a moment at which the others may run"""
        w = self.acting()
        if w is not None:
            w.wait()

    def wait(self):
        me = threading.current_thread()
        for w in self.workers:
            if getattr(w, '_thread', None) is me:
                return w.wait()
        raise Deadlock('waiting for a request')

    def close(self):
        self.closed = True
        for w in self.workers:
            if w.started and not w.ended and hasattr(w, '_thread'):
                w.killed = True
                w.turn.release()
                w.back.acquire()
            w.ended = True

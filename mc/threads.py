"""
Real threads under a controlled scheduler: one runs at a time, and the explorer
chooses which at every pause.
"""
import sys, threading
from _thread import allocate_lock



class Scheduler(object):
    """
    run(workers) starts one thread per worker; exactly one of them holds the
    turn at any moment.  A worker can lose its turn in pause(), and when it
    ends; who gets it next is the explorer's choice.
    """

    def __init__(self, ch, trace=None):
        """
        @param trace: a directory; a thread pauses before every line it runs of
            code below it, and any switch away from a thread which could go on
            is a deviation (the exploration bounds their number).
        """
        self.ch = ch
        self.trace = trace
        self.current = None
        self.history = []

    def pause(self):
        me = threading.get_ident()
        i = self.current
        if i is None or self._idents.get(i) != me or self._failed is not None:
            return            # not one of ours: nothing to schedule
        self._next(i)

    def _next(self, i):
        """Choose who runs next; called by the thread i that has the turn."""
        ready = [j for j in range(len(self._done)) if not self._done[j]]
        if not ready:
            self.current = None
            self._over.release()
            return
        if self.trace and i in ready:
            ready.remove(i)
            ready.insert(0, i)
            dev = True
        else:
            dev = False
        try:
            j = self.ch.choose(ready, 'thread', dev) if len(ready) > 1 else ready[0]
        except BaseException as e:
            self._failed = e
            j = ready[0]
        self.history.append(j)
        if j == i:
            return
        self.current = j
        self._gates[j].release()
        if not self._done[i]:
            self._gates[i].acquire()

    def run(self, workers):
        n = len(workers)
        self._gates = [allocate_lock() for _ in range(n)]
        for g in self._gates:
            g.acquire()
        self._over = allocate_lock()
        self._over.acquire()
        self._errors = []
        self._failed = None
        self._idents = {}
        self._done = [False] * n

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.trace):
                return None
            if event == 'line':
                self.pause()
            return tracer

        def body(i):
            self._idents[i] = threading.get_ident()
            self._gates[i].acquire()
            try:
                if self.trace:
                    sys.settrace(tracer)
                try:
                    workers[i]()
                finally:
                    if self.trace:
                        sys.settrace(None)
            except BaseException as e:
                self._errors.append(e)
            self._done[i] = True
            self._next(i)
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        # who begins
        try:
            j = self.ch.choose(n, 'thread')
        except BaseException as e:
            self._failed = e
            j = 0
        self.history.append(j)
        self.current = j
        self._gates[j].release()
        self._over.acquire()
        for t in threads:
            t.join()
        if self._failed is not None:
            raise self._failed
        if self._errors:
            raise self._errors[0]

"""
Controlled thread scheduler: one thread runs at a time, and at line events inside the library the
baton is handed to another thread, as decided by a seeded generator.  Every run is a deterministic,
replayable interleaving at the granularity of source lines; trace() gives its digest.
"""
import hashlib
import sys
import threading


class Scheduler(object):
    def __init__(self, rng, path, switch=0.15):
        self.rng = rng
        self.path = path
        self.switch = switch
        self.sem = []
        self.alive = []
        self.switches = 0
        self.lines = 0
        self.digest = hashlib.blake2b(digest_size=8)

    def _trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self._point(me, frame.f_lineno)
            return local

        def start(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.path):
                return local
            return None
        return start

    def _point(self, me, line):
        self.lines += 1
        if self.rng.random() < self.switch:
            others = [i for i in self.alive if i != me]
            if others:
                to = others[int(self.rng.random() * len(others))]
                self.switches += 1
                self.digest.update(b'%d:%d>%d ' % (me, line, to))
                self.sem[to].release()
                self.sem[me].acquire()

    def run(self, jobs):
        """list of callables -> list of (result, error)"""
        results = [None] * len(jobs)
        self.sem = [threading.Semaphore(0) for _ in jobs]
        self.alive = list(range(len(jobs)))
        done = threading.Semaphore(0)

        def body(me):
            self.sem[me].acquire()
            sys.settrace(self._trace(me))
            try:
                results[me] = (jobs[me](), None)
            except Exception as error:      # reported by the caller
                results[me] = (None, error)
            finally:
                sys.settrace(None)
                self.alive.remove(me)
                if self.alive:
                    self.sem[self.alive[int(self.rng.random() * len(self.alive))]].release()
                else:
                    done.release()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in threads:
            t.start()
        self.sem[0].release()
        done.acquire()
        for t in threads:
            t.join()
        return results

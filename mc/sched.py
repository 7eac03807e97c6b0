"""A controlled scheduler for runs of the real solver in threads: exactly one thread runs at a time, and every place where control may pass to another
thread is a numbered point. Points are calls into user functions (thresholds, perturbations) or, with `lines`, every line of pyqlaw that is executed."""
import os, sys, threading
from . import core

PKG = None


def package():
    global PKG
    if PKG is None:
        import pyqlaw
        PKG = os.path.dirname(os.path.realpath(pyqlaw.__file__)) + os.sep
    return PKG


class Baton:
    """choose(scheduler, me) -> thread to run next, asked at every point of the running thread"""
    def __init__(self, bodies, choose, lines=False):
        self.n = len(bodies); self.bodies = bodies; self.choose = choose; self.lines = lines
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.alive = [True]*self.n; self.count = [0]*self.n; self.total = 0
        self.error = [None]*self.n; self.done = threading.Event(); self.trace = []
        self.local = threading.local()

    def point(self):
        me = getattr(self.local, "me", None)
        if me is None: return
        self.count[me] += 1; self.total += 1
        to = self.choose(self, me)
        if to != me and self.alive[to]:
            self.trace.append((me, self.count[me], to))
            self.sem[to].release(); self.sem[me].acquire()

    def _tr(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(package()): return None
        if event == "line": self.point()
        return self._tr

    def _run(self, me):
        self.local.me = me
        self.sem[me].acquire()
        try:
            if self.lines: sys.settrace(self._tr)
            self.bodies[me]()
        except BaseException as e:
            import traceback
            self.error[me] = traceback.format_exc()[-1500:]
        finally:
            sys.settrace(None)
            self.alive[me] = False
            rest = [t for t in range(self.n) if self.alive[t]]
            if rest: self.sem[rest[0]].release()
            else: self.done.set()

    def run(self, first=0, limit=60):
        T = [threading.Thread(target=self._run, args=(t,), daemon=True) for t in range(self.n)]
        for t in T: t.start()
        self.sem[first].release()
        if not self.done.wait(limit): raise core.CaseTimeout("interleaved runs did not end within %d s" % limit)
        for t in T: t.join(5)


class Script:
    """Follows a list of thread numbers, one per point; then the thread goes on."""
    def __init__(self, order): self.order = order
    def __call__(self, s, me):
        return self.order[s.total-1] if s.total <= len(self.order) else me


class Preempt:
    """Passes control at the given points: [(thread, its k-th point, to)]"""
    def __init__(self, at): self.at = {(t, k): to for t, k, to in at}
    def __call__(self, s, me): return self.at.get((me, s.count[me]), me)

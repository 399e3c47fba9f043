"""A seeded scheduler for threads: exactly one simulated thread runs at a time and it hands over only at calls made by
code of the system under simulation, where the schedule (a pure function of the seed) says so."""
import sys
import threading

from . import boot

_REPO_PREFIX = boot.REPO.rstrip("/") + "/rainbow/"
_TOOL = 4


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, rng, mean_gap=40, max_switches=100000):
        self.rng, self.mean_gap, self.max_switches = rng, mean_gap, max_switches
        self.trace = []
        self.switches = 0
        self.points = 0

    def run(self, tasks):
        """``tasks``: list of callables; returns the list of (result, exception)."""
        n = len(tasks)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.done = threading.Semaphore(0)
        self.results = [(None, None)] * n
        self.ident = {}
        self.current = None
        self._next_gap()
        threads = []
        for i, t in enumerate(tasks):
            th = threading.Thread(target=self._main, args=(i, t), daemon=True)
            threads.append(th)
            th.start()
        mon = sys.monitoring
        mon.use_tool_id(_TOOL, "verif-sched")
        mon.register_callback(_TOOL, mon.events.CALL, self._on_call)
        mon.set_events(_TOOL, mon.events.CALL)
        mon.restart_events()
        try:
            self._switch_to(self.rng.randrange(n))
            for _ in range(n):
                self.done.acquire()
        finally:
            mon.set_events(_TOOL, 0)
            mon.register_callback(_TOOL, mon.events.CALL, None)
            mon.free_tool_id(_TOOL)
        for th in threads:
            th.join(30)
        return self.results

    def _next_gap(self):
        self.gap = max(1, int(self.rng.expovariate(1.0 / self.mean_gap)))

    def _switch_to(self, i):
        self.current = i
        self.trace.append(i)
        self.sems[i].release()

    def _main(self, i, task):
        self.ident[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            r = (task(), None)
        except BaseException as e:  # noqa
            r = (None, e)
        self.results[i] = r
        self.alive[i] = False
        others = [j for j, a in enumerate(self.alive) if a]
        if others:
            self._switch_to(self.rng.choice(others))
        self.done.release()

    def _on_call(self, code, offset, func, arg0):
        if not code.co_filename.startswith(_REPO_PREFIX):
            return sys.monitoring.DISABLE
        i = self.ident.get(threading.get_ident())
        if i is None or i != self.current:
            return None
        self.points += 1
        self.gap -= 1
        if self.gap > 0:
            return None
        self._next_gap()
        others = [j for j, a in enumerate(self.alive) if a and j != i]
        if not others or self.switches >= self.max_switches:
            return None
        self.switches += 1
        self._switch_to(self.rng.choice(others))
        self.sems[i].acquire()
        return None

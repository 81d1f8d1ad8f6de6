"""threading for code under test: locks belong to simulated tasks, threads are simulated tasks."""
import threading as _real
from sim.core import Sim, SimLock, HarnessGap

Lock = lambda: SimLock(False, "threading.Lock")
RLock = lambda: SimLock(True, "threading.RLock")
current_thread, main_thread, get_ident = _real.current_thread, _real.main_thread, None


def get_ident():
    s = Sim.current
    return s.cur.tid + 1 if s is not None and s.cur is not None else 0


class local:
    """Per-task attributes."""

    def __init__(self):
        object.__setattr__(self, "_d", {})

    def _mine(self):
        return object.__getattribute__(self, "_d").setdefault(get_ident(), {})

    def __getattribute__(self, name):
        if name in ("_mine", "__dict__", "__class__"):
            return object.__getattribute__(self, name)
        d = object.__getattribute__(self, "_mine")()
        if name in d:
            return d[name]
        raise AttributeError(name)

    def __setattr__(self, name, value):
        object.__getattribute__(self, "_mine")()[name] = value


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.waiters, self.t = [], None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        s = Sim.current
        if s is None or s.cur is None:
            self.run()
            return

        def body():
            try:
                self.run()
            finally:
                for w in self.waiters:
                    s.wake_task(w)
        self.t = s.spawn(f"{s.cur.name}.thr", body)

    def join(self, timeout=None):
        s = Sim.current
        while self.t is not None and self.t.state != "done":
            self.waiters.append(s.cur)
            s.block("join")

    def is_alive(self):
        return self.t is not None and self.t.state != "done"


def __getattr__(name):
    raise HarnessGap(f"threading.{name} is not simulated")

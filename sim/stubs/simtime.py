"""time for code under test: the simulated clock."""
from sim.core import Sim


def time():
    s = Sim.current
    return (s.now + s.clock_skew) * 1e-9 if s is not None else 0.0


perf_counter = monotonic = process_time = time


def time_ns():
    s = Sim.current
    return s.now if s is not None else 0


perf_counter_ns = monotonic_ns = time_ns


def sleep(dt):
    s = Sim.current
    if s is not None:
        s.sleep(int(dt * 1e9))


def strftime(*a):
    return "1970-01-01"


asctime = ctime = strftime

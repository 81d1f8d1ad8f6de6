"""concurrent.futures for code under test, on simulated threads."""
from sim.stubs.simthreading import Thread


class Future:
    def __init__(self):
        self._r = self._e = None

    def result(self, timeout=None):
        self.t.join()
        if self._e is not None:
            raise self._e
        return self._r


class ThreadPoolExecutor:
    def __init__(self, max_workers=None, **k):
        pass

    def submit(self, fn, *a, **k):
        f = Future()

        def run():
            try:
                f._r = fn(*a, **k)
            except BaseException as e:
                f._e = e
        f.t = Thread(target=run)
        f.t.start()
        return f

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


ProcessPoolExecutor = ThreadPoolExecutor


def as_completed(fs):
    return list(fs)

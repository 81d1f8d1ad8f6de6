"""random for code under test: the module-level generator, with its draws counted."""
import random as _real

draws = [0]


def random():
    draws[0] += 1
    return _real.random()


def __getattr__(name):
    draws[0] += 1
    return getattr(_real, name)

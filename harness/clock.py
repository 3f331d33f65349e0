"""A clock the checks can hold and advance.  Import before qopt."""
import time

real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter')}
_held = {}
_offset = 0.


def _make(name):
    def now():
        if _held:
            return _held[name] + _offset
        return real[name]() + _offset
    return now


for _n in real:
    setattr(time, _n, _make(_n))


def hold():
    for n in real:
        _held[n] = real[n]()


def release():
    _held.clear()


def advance(seconds):
    global _offset
    _offset += seconds

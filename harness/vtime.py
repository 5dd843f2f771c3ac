"""Virtual time for the code under test.

Calls of time.time/monotonic/perf_counter/sleep made from modules of the package under test see a clock that only the
driver advances, and every sleep counts as one poll of the calling thread.  All other callers keep the real clock.
Must be imported before spicelib (modules there use `from time import sleep`)."""
import sys
import threading
import time

real_sleep, real_time, real_mono = time.sleep, time.time, time.monotonic
_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
now = 1000.0
active = False
polls = {}
sleeping = {}


def _in_sut(depth=2):
    f = sys._getframe(depth)
    while f is not None and f.f_globals.get("__name__", "") in (__name__, "threading"):
        f = f.f_back
    return f is not None and f.f_globals.get("__name__", "").startswith("spicelib")


def _wrap(name):
    real = _real[name]

    def clock():
        if active and _in_sut():
            return now
        return real()
    clock.__name__ = name
    return clock


def _sleep(s):
    if active and _in_sut():
        i = threading.get_ident()
        polls[i] = polls.get(i, 0) + 1
        real_sleep(0.0003)
    else:
        real_sleep(s)


def install():
    # anything that must keep real time imports these names first
    import logging, multiprocessing, multiprocessing.connection, queue, selectors, subprocess, socketserver  # noqa
    for n in _real:
        setattr(time, n, _wrap(n))
    time.sleep = _sleep


def tick(d):
    global now
    now += d

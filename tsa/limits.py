"""Time limits of the analysis: a construct whose analysis takes too long is
left undecided, so that every check gives an answer in time."""
import time


class OutOfTime(Exception):
    pass


until = [None]      # of the construct under analysis
unknown = []        # constructs the interpreter met and does not model
end = [None]        # of the whole check


def start(total):
    end[0] = time.time() + total


def tick():
    u = until[0]
    if u is not None and time.time() > u:
        raise OutOfTime("time limit of the construct")


def enter(seconds):
    old = until[0]
    t = time.time() + seconds
    for x in (old, end[0]):
        if x is not None and x < t:
            t = x
    until[0] = t
    return old


def leave(old):
    until[0] = old

"""Wall-clock limits for one step of an analysis.  What runs out of time is
undecided: it raises no alarm and is listed."""
import contextlib
import signal
import threading
import time


class Expired(BaseException):
    """Not an Exception: nothing between the alarm and its limit may catch it."""

    def __init__(self, token):
        super().__init__('time limit')
        self.token = token


_stack = []      # (deadline, token)


def _arm():
    if _stack:
        d = min(x[0] for x in _stack)
        signal.setitimer(signal.ITIMER_REAL, max(0.001, d - time.monotonic()), 1.0)
    else:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _fire(sig, frame):
    now = time.monotonic()
    for d, tok in _stack:          # the outermost one that is over
        if d <= now:
            raise Expired(tok)


@contextlib.contextmanager
def limit(seconds, make):
    """Raises make() when the body takes longer than that."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    tok = object()
    if not _stack:
        signal.signal(signal.SIGALRM, _fire)
    _stack.append((time.monotonic() + seconds, tok))
    _arm()
    try:
        yield
    except Expired as e:
        if e.token is not tok:
            raise
        raise make() from None
    finally:
        for i in range(len(_stack) - 1, -1, -1):
            if _stack[i][1] is tok:
                del _stack[i]
        _arm()


def forget():
    """In a new process: no limits of the parent."""
    del _stack[:]
    signal.setitimer(signal.ITIMER_REAL, 0)

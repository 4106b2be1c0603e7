import signal
import threading


class Hang(BaseException):
    pass


class time_limit:
    """raises Hang in the main thread after so many seconds"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:

            def stop(*a):
                raise Hang("no answer within %s s" % self.seconds)

            self.old = signal.signal(signal.SIGALRM, stop)
            signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)


def internal_is_gone(ex):
    """an internal of the package which a harness looks into has another name now: nothing can be said"""
    import os
    import re

    if not isinstance(ex, (AttributeError, ImportError)) or ex.__traceback__ is None:
        return False
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    where = os.path.basename(os.path.dirname(tb.tb_frame.f_code.co_filename))
    return where in ("checks", "engine") and re.search(r"(module 'spey[\w.]*'|type object '\w+') has no attribute '_[a-z]\w*'", str(ex)) is not None

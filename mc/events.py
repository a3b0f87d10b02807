"""Something else happens while dsch runs, at any chosen source line."""
import os
import sys

from . import core


class Happened:
    """Run a function; at its n-th source line in dsch, call event().

    Without n, the lines are counted only. The event (of another process)
    returns whether it was possible at this time.  With repeats, only the
    first executions of each line count.
    """

    def __init__(self, func, n=None, event=None, repeats=None):
        visits = {}
        self.count = 0
        self.fired = False
        self.error = None
        self.result = None
        prefix = os.path.join(core.REPO, 'dsch') + os.sep
        own = {}

        def line(frame, kind, arg):
            if kind == 'line':
                if repeats is not None:
                    key = frame.f_code.co_filename, frame.f_lineno
                    visits[key] = visits.get(key, 0) + 1
                    if visits[key] > repeats:
                        return line
                self.count += 1
                if self.count == n:
                    sys.settrace(None)
                    self.fired = bool(event())
            return line

        def call(frame, kind, arg):
            name = frame.f_code.co_filename
            if name not in own:
                own[name] = os.path.realpath(name).startswith(prefix)
            return line if own[name] else None

        sys.settrace(call)
        try:
            self.result = func()
        except (Exception, KeyboardInterrupt) as err:
            # Frames of the traceback would keep files open.
            self.error = err.with_traceback(None)
            self.error.__context__ = self.error.__cause__ = None
        finally:
            sys.settrace(None)

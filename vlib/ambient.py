"""What surrounds a case: the machine's own time zone, and whether all is logged."""
import contextlib
import io
import logging
import os
import time

# in turn, case after case: most run as the check was started
AMBIENTS = [{}] * 5 + [{"debug": True}, {}, {"machine": "America/New_York"}, {},
                       {"machine": "Asia/Kolkata", "debug": True}, {},
                       {"machine": "Europe/London"}]


@contextlib.contextmanager
def ambient(v):
    zone = os.environ.get("TZ")
    log = logging.getLogger("estrade")
    level, handlers, off = log.level, list(log.handlers), logging.root.manager.disable
    try:
        if v.get("machine"):
            os.environ["TZ"] = v["machine"]
            time.tzset()
        if v.get("debug"):
            handler = logging.StreamHandler(io.StringIO())
            handler.setFormatter(logging.Formatter("%(asctime)s %(name)s %(message)s"))
            handler.handleError = lambda record: None  # as in production
            log.addHandler(handler)
            log.setLevel(logging.DEBUG)
            logging.disable(logging.NOTSET)
        yield
    finally:
        if v.get("machine"):
            if zone is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = zone
            time.tzset()
        if v.get("debug"):
            log.handlers[:] = handlers
            log.setLevel(level)
            logging.disable(off)

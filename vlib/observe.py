"""Reading of the state of estrade objects into plain data.

Any exception raised while reading is a violation (see harness._classify): the objects
of a valid history must be readable.
"""
import math
from datetime import datetime, timedelta, timezone

from vlib.harness import Violation

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
US = timedelta(microseconds=1)


def num(x, what="value"):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise Violation(f"{what} is {x!r}, not a number")
    if not math.isfinite(x):
        raise Violation(f"{what} is {x!r}")
    return x


def num_or_none(x, what="value"):
    return None if x is None else num(x, what)


def pydt(dt):
    if isinstance(dt, datetime):
        return dt
    return dt.datetime  # arrow


def wall(dt):
    """Naive local datetime."""
    return pydt(dt).replace(tzinfo=None, fold=0)


def us(dt):
    """Microseconds since the epoch."""
    return (pydt(dt).astimezone(timezone.utc) - EPOCH) // US


def tid(tick):
    """Number of a tick created by the harness."""
    if tick is None:
        return None
    return tick.meta["i"]


def frame(f):
    return {
        "nb": num(f.nb_ticks, "nb_ticks"),
        "first": tid(f.first_tick),
        "high": tid(f.high_tick),
        "low": tid(f.low_tick),
        "last": tid(f.last_tick),
        "start": wall(f.period_start),
        "end": None if f.period_end is None else wall(f.period_end),
        "closed": bool(f.closed),
    }


def frames(fs):
    """Frames kept, oldest first, with their links as indexes."""
    objs = list(fs.frames)
    out = []
    for i, f in enumerate(objs):
        d = frame(f)
        d["prev"] = link(objs, f.previous_frame)
        d["next"] = link(objs, f.next_frame)
        out.append(d)
    return out


def link(objs, f):
    if f is None:
        return None
    for i, o in enumerate(objs):
        if o is f:
            return i
    return -1  # a frame which is not kept


CANDLE = ("open", "high", "low", "last", "height", "body", "head", "tail")


def candle(v):
    d = {k: num(getattr(v, k), k) for k in CANDLE}
    d["close"] = num_or_none(v.close, "close")
    d["color"] = v.color.name if v.color is not None else None
    return d


PIVOT = ("pivot", "support1", "support2", "support3", "resistance1", "resistance2",
         "resistance3")


def pivot(v):
    return {k: num_or_none(getattr(v, k), k) for k in PIVOT}


def sma(v, periods):
    return {str(n): num_or_none(v.get_value(n), "sma") for n in periods}


def rsi(v):
    return {"value": num_or_none(v.value, "rsi")}


def generic(v):
    return {
        "first": tid(v.first_tick),
        "high": tid(v.high_tick),
        "low": tid(v.low_tick),
        "last": tid(v.last_tick),
    }


def call(fn, *args, **kwargs):
    """Call a function of the package whose answer is part of the observation."""
    return fn(*args, **kwargs)

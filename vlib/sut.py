"""Building estrade objects from JSON."""
import datetime as D

import arrow

from estrade import BaseStrategy, Epic, Tick
from estrade.enums import CandleType, PivotType, TradeDirection, Unit
from estrade.graph import FrameSet
from estrade.graph.indicators.candle_set import CandleSet
from estrade.graph.indicators.pivot import Pivot
from estrade.graph.indicators.rsi import RSI
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverage

from vlib import tzmodel as tzm


def when(us, zone="UTC"):
    """Arrow datetime of an instant, in a zone."""
    dt = arrow.get(tzm.utc(us))
    return dt if zone == "UTC" else dt.to(zone)


def tick(i, us, bid, ask, zone="UTC"):
    return Tick(datetime=when(us, zone), bid=bid, ask=ask, meta={"i": i})


def time_of(parts):
    return D.time(*parts)


def epic(zone, cal=None, hols=None, ref=None, provider=None):
    kw = {}
    if cal is not None:
        kw["open_time"] = time_of(cal["open"])
        kw["close_time"] = time_of(cal["close"])
        if cal.get("days") is not None:
            kw["trade_days"] = list(cal["days"])
    if hols:
        kw["holidays"] = [D.date(*h) for h in hols]
    if ref is not None:
        kw["ref"] = ref
    if provider is not None:
        kw["trade_provider"] = provider
    return Epic(timezone=zone, **kw)


def frame_set(unit, q, n=None, ref=None):
    kw = {}
    if n is not None:
        kw["max_frames_in_memory"] = n
    if ref is not None:
        kw["ref"] = ref
    return FrameSet(unit=Unit[unit], unit_quantity=q, **kw)


def indicator(spec):
    """spec: dict(type, ref, market, + parameters)."""
    kw = {"ref": spec["ref"], "market_open_only": bool(spec.get("market"))}
    t = spec["type"]
    if t == "candle":
        return CandleSet(candle_type=CandleType.CLASSIC, **kw)
    if t == "ha":
        return CandleSet(candle_type=CandleType.HEIKIN_ASHI, **kw)
    if t == "sma":
        return SimpleMovingAverage(max_periods=spec["n"], **kw)
    if t == "rsi":
        return RSI(periods=spec["n"], **kw)
    if t == "pivot":
        return Pivot(pivot_type=PivotType.CLASSIC, **kw)
    if t == "olhc":
        return Pivot(pivot_type=PivotType.OLHC, **kw)
    raise ValueError(t)


def sized(cls, really=True):
    """The class with a length (its trades or its frames): a new object of it is false."""
    if not really:
        return cls

    class Sized(cls):
        def __len__(self):
            return len(self.__dict__.get("trades", self.__dict__.get("frames", ())))

    return Sized


def direction(name):
    return TradeDirection[name]

"""Reference periods of time frames: arithmetic on local time only."""
from datetime import date, datetime, timedelta

from vlib import tzmodel as tzm

UNITS = ["TICK", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"]
DIVISORS = {
    "SECOND": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
    "MINUTE": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
    "HOUR": [1, 2, 3, 4, 6, 12],
    "DAY": [1, 7],
    "WEEK": [1],
    "MONTH": [1, 2, 3, 4, 6, 12],
}
CYCLE = {"SECOND": 60, "MINUTE": 60, "HOUR": 12, "DAY": 7, "WEEK": 1, "MONTH": 12}
APPROX = {  # seconds
    "SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 7 * 86400,
    "MONTH": 30 * 86400, "YEAR": 365 * 86400,
}
MONDAY = date(1, 1, 1).toordinal()  # 0001-01-01 was a Monday


def ordinal(unit, q, wall):
    """Number of the period of `q` units containing the wall clock."""
    day = wall.toordinal() - MONDAY
    if unit == "SECOND":
        return (day * 86400 + wall.hour * 3600 + wall.minute * 60 + wall.second) // q
    if unit == "MINUTE":
        return (day * 1440 + wall.hour * 60 + wall.minute) // q
    if unit == "HOUR":
        return (day * 24 + wall.hour) // q
    if unit == "DAY":
        return day // q
    if unit == "WEEK":
        return day // 7
    if unit == "MONTH":
        return (wall.year * 12 + wall.month - 1) // q
    if unit == "YEAR":
        return wall.year // q
    raise ValueError(unit)


def start_wall(unit, q, n):
    base = datetime(1, 1, 1)
    if unit == "SECOND":
        return base + timedelta(seconds=n * q)
    if unit == "MINUTE":
        return base + timedelta(minutes=n * q)
    if unit == "HOUR":
        return base + timedelta(hours=n * q)
    if unit == "DAY":
        return base + timedelta(days=n * q)
    if unit == "WEEK":
        return base + timedelta(days=n * 7)
    if unit == "MONTH":
        m = n * q
        return datetime(m // 12, m % 12 + 1, 1)
    if unit == "YEAR":
        return datetime(n * q, 1, 1)
    raise ValueError(unit)


def length_s(unit, q):
    return APPROX[unit] * q


def next_boundary_us(unit, q, us, zone):
    """Instant of the first boundary of the grid after the instant."""
    n = ordinal(unit, q, tzm.local(us, zone))
    for k in range(1, 4000):
        b = tzm.resolve(start_wall(unit, q, n + k), zone)[0]
        if b > us:
            return b
    raise ValueError("no boundary")


class Excluded(Exception):
    """The history enters a situation recorded as a known finding or out of domain."""


class FrameModel:
    """Frames of one frame set, from the ticks received so far (ids in order)."""

    def __init__(self, unit, q, zone):
        self.unit, self.q, self.zone = unit, q, zone
        self.frames = []  # dict(ord, start, end, ticks, carried)
        self.last = None
        self.last_date = None

    def add(self, i, us):
        """Add tick i; returns the number of frames created."""
        wall = tzm.local(us, self.zone)
        if self.unit == "TICK":
            cur = self.frames[-1] if self.frames else None
            new = (
                cur is None
                or len(cur["ticks"]) >= self.q
                or wall.date() > self.last_date
            )
            self.last_date = wall.date()
            if new:
                self.frames.append(
                    {"ord": None, "start": wall, "end": None, "ticks": [i],
                     "carried": None}
                )
                return 1
            cur["ticks"].append(i)
            return 0
        n = ordinal(self.unit, self.q, wall)
        created = 0
        if self.frames:
            cur = self.frames[-1]
            if n < cur["ord"]:
                raise Excluded("local time moved back to an earlier period")
            if n == cur["ord"]:
                cur["ticks"].append(i)
                self.last = i
                return 0
            for k in range(cur["ord"] + 1, n):
                f = self._period(k)
                if f["start_us"] == f["end_us"]:
                    continue  # wholly skipped by a clock change
                f["carried"] = self.last
                self.frames.append(f)
                created += 1
        f = self._period(n)
        f["ticks"].append(i)
        self.frames.append(f)
        self.last = i
        return created + 1

    def _period(self, n):
        s = start_wall(self.unit, self.q, n)
        e = start_wall(self.unit, self.q, n + 1)
        if s.year < 1971 or e.year > 2037:
            # out of the range of the zone data: wall clocks only
            return {"ord": n, "start": s, "end": e, "start_us": (0, s), "end_us": (0, e),
                    "ticks": [], "carried": None}
        su, sx = tzm.resolve(s, self.zone)
        eu, ex = tzm.resolve(e, self.zone)
        if not ex and tzm.gap_start_wall(eu, self.zone) != e and su != eu:
            raise Excluded("period end inside a clock change")
        return {"ord": n, "start": s, "end": e, "start_us": su, "end_us": eu,
                "ticks": [], "carried": None}


def same_boundary(observed_wall, model_wall, zone):
    """The wall clocks denote the same boundary (a skipped one is its change)."""
    if observed_wall == model_wall:
        return True
    if model_wall.year < 1971 or model_wall.year > 2037:
        return False
    a, ax = tzm.resolve(observed_wall, zone)
    b, bx = tzm.resolve(model_wall, zone)
    return a == b and not (ax and bx)

"""Local time, from the standard zoneinfo (estrade uses dateutil): independent oracle.

Instants are integers, microseconds since 1970-01-01 UTC.  Walls are naive datetimes.
"""
import bisect
from datetime import datetime, timedelta, timezone
from functools import lru_cache
from zoneinfo import ZoneInfo

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
NEPOCH = datetime(1970, 1, 1)
US = timedelta(microseconds=1)
SEC = 10**6

# zones and the years in which their rules are plain offset changes of at most an hour
# on the grid of local time (see DESIGN.md, C06)
ZONES = {
    "UTC": (1972, 2036),
    "Europe/Paris": (1977, 2036),
    "America/New_York": (1976, 2036),
    "Europe/London": (1973, 2036),
    "Asia/Kolkata": (1972, 2036),
    "Asia/Tokyo": (1972, 2036),
    "Australia/Lord_Howe": (1988, 2036),
    "Australia/Sydney": (1975, 2036),
    "Asia/Kathmandu": (1988, 2036),
    "America/St_Johns": (2012, 2036),
    "America/Sao_Paulo": (1990, 2020),
    "Asia/Tehran": (1992, 2024),
    "Asia/Beirut": (1994, 2036),
    "America/Havana": (2000, 2036),
    "Pacific/Auckland": (1976, 2036),
    "Pacific/Chatham": (1976, 2036),
    "America/Los_Angeles": (1976, 2036),
    "Pacific/Kiritimati": (1996, 2036),
    "Pacific/Pago_Pago": (1972, 2036),
    "Etc/GMT+12": (1972, 2036),
    "Europe/Moscow": (1993, 2036),
    "Africa/Casablanca": (2012, 2036),
    "Europe/Dublin": (1973, 2036),
}


@lru_cache(None)
def zone(name):
    return ZoneInfo(name)


def utc(us):
    return EPOCH + timedelta(microseconds=us)


def to_us(aware):
    return (aware - EPOCH) // US


@lru_cache(1 << 15)
def local(us, name):
    """Wall clock of an instant."""
    return utc(us).astimezone(zone(name)).replace(tzinfo=None)


def offset_us(us, name):
    return (utc(us).astimezone(zone(name)).utcoffset()) // US


def _wall_us(wall):
    return (wall - NEPOCH) // US


@lru_cache(1 << 14)
def resolve(wall, name):
    """(instant, exists): the first instant whose wall clock is >= wall.

    For a wall clock skipped by a change, the instant of the change.
    """
    w = _wall_us(wall)
    z = zone(name)
    off0 = wall.replace(tzinfo=z, fold=0).utcoffset() // US
    u0 = w - off0
    if local(u0, name) == wall:
        return u0, True
    off1 = wall.replace(tzinfo=z, fold=1).utcoffset() // US
    u1 = w - off1
    if local(u1, name) == wall:
        return u1, True
    lo, hi = min(u0, u1), max(u0, u1)  # the change is in ]lo, hi]
    lo, hi = lo // SEC - 1, hi // SEC + 1
    olo = offset_us(lo * SEC, name)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if offset_us(mid * SEC, name) == olo:
            lo = mid
        else:
            hi = mid
    return hi * SEC, False


def gap_start_wall(change_us, name):
    """Wall clock at which a forward change happens (before it applies)."""
    before = offset_us(change_us - SEC, name)
    return NEPOCH + timedelta(microseconds=change_us + before)


@lru_cache(None)
def transitions(name):
    """Instants of the offset changes of a zone in its allowed years."""
    y0, y1 = ZONES[name]
    t = to_us(datetime(y0, 1, 5, tzinfo=UTC)) // SEC
    end = to_us(datetime(y1, 12, 20, tzinfo=UTC)) // SEC
    step = 7 * 86400
    out = []
    o = offset_us(t * SEC, name)
    while t < end:
        n = min(t + step, end)
        on = offset_us(n * SEC, name)
        if on != o:
            lo, hi = t, n
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if offset_us(mid * SEC, name) == o:
                    lo = mid
                else:
                    hi = mid
            out.append(hi * SEC)
        t, o = n, on
    return out


def bounds(name):
    y0, y1 = ZONES[name]
    return (
        to_us(datetime(y0, 1, 5, tzinfo=UTC)),
        to_us(datetime(y1, 12, 20, tzinfo=UTC)),
    )


def near_transition(us, name, span=3 * 86400 * SEC):
    ts = transitions(name)
    i = bisect.bisect_left(ts, us - span)
    return i < len(ts) and ts[i] <= us + span

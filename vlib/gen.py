"""Hypothesis strategies producing JSON cases."""
from datetime import timedelta

from hypothesis import strategies as st

from vlib import periods, tzmodel as tzm

SEC = tzm.SEC
DAY = 86400 * SEC

ints = st.integers
pick = st.sampled_from


def zones():
    # UTC first: the simplest
    return pick(list(tzm.ZONES))


PACES = {  # what a case calls its finest step, seconds
    "SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400,
}


@st.composite
def anchors(draw, zone, marks=()):
    """Instant where a history starts: anywhere, or just before something special."""
    lo, hi = tzm.bounds(zone)
    kind = draw(pick(["plain", "day", "dst", "week", "month", "year", "mark"]))
    if kind == "dst":
        ts = tzm.transitions(zone)
        if ts:
            t = draw(pick(ts))
            return t - draw(ints(0, 40)) * 600 * SEC
        kind = "day"
    if kind == "plain":
        return draw(ints(lo // SEC, (hi - 400 * DAY) // SEC)) * SEC + draw(
            pick([0, 0, 1, 500000, 999999]))
    base = draw(ints(lo // DAY + 2, hi // DAY - 400)) * DAY
    wall = tzm.local(base, zone)
    if kind == "day" or kind == "mark":
        target = wall.replace(hour=0, minute=0, second=0, microsecond=0)
        if kind == "mark" and marks:
            h, m = draw(pick(list(marks)))[:2]
            target = target.replace(hour=h, minute=m)
    elif kind == "week":
        target = wall.replace(hour=0, minute=0, second=0, microsecond=0)
        target -= timedelta(days=target.weekday())
    elif kind == "month":
        target = wall.replace(day=1, hour=0, minute=0, second=0, microsecond=0)
    else:
        target = wall.replace(month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
        if target.year <= tzm.ZONES[zone][0]:
            target = target.replace(year=target.year + 1)
    t = tzm.resolve(target, zone)[0]
    return t + draw(pick([-1, 0, 1, -SEC, -60 * SEC, -3600 * SEC, -7200 * SEC]))


TOKEN_KINDS = ["frac", "unit", "bnd", "same", "bnd", "frac", "us", "unit", "gap", "day",
               "mark", "bnd", "frac", "bnd", "unit", "frac", "gap", "biggap"]
KINDS_SMOOTH = ["frac", "unit", "bnd", "same", "frac", "us"]


def tokens(min_size, max_size, smooth=False, backwards=False):
    kinds = list(KINDS_SMOOTH if smooth else TOKEN_KINDS)
    if backwards:
        kinds += ["back", "backus"]
    return st.lists(
        st.tuples(pick(kinds), ints(0, 16), ints(0, 2)),
        min_size=min_size, max_size=max_size,
    )


def instants(toks, zone, start, fsets, pace=60, marks=(), max_gap=90):
    """Turn tokens into instants.  fsets: [(unit, q)] the boundaries of interest."""
    timed = [(u, q) for u, q in fsets if u != "TICK"]
    finest = min([periods.length_s(u, q) for u, q in timed] or [pace]) * SEC
    hi = tzm.bounds(zone)[1]
    out = [start]
    t = start
    for kind, amt, sel in toks:
        n = t
        if kind == "same":
            pass
        elif kind == "us":
            n = t + (1, 2, 999)[sel]
        elif kind == "frac":
            n = t + max(1, amt) * finest // 17
        elif kind == "unit":
            n = t + (1 + sel) * finest
        elif kind == "gap":
            n = t + (2 + amt) * finest + (0, -1, finest // 3)[sel]
        elif kind == "biggap":
            n = t + (9 + 4 * amt) * finest + (0, -1, finest // 3)[sel]
        elif kind == "bnd" and timed:
            u, q = timed[amt % len(timed)]
            n = periods.next_boundary_us(u, q, t, zone) + (0, -1, 1)[sel]
        elif kind in ("day", "mark", "bnd"):
            wall = tzm.local(t, zone).replace(hour=0, minute=0, second=0, microsecond=0)
            if kind == "mark" and marks:
                h, m, s, us = (list(marks[amt % len(marks)]) + [0, 0, 0])[:4]
                wall = wall.replace(hour=h, minute=m, second=s, microsecond=us)
            k = 0
            while n <= t and k < 3:
                n = tzm.resolve(wall + timedelta(days=k), zone)[0]
                k += 1
            n += (0, -1, 1)[sel]
        elif kind == "back":
            n = t - (amt + 1) * finest // 8
        elif kind == "backus":
            n = t - (1, 2, 3600 * SEC)[sel]
        if kind not in ("back", "backus"):
            n = max(n, t)
            if n - t > max_gap * finest or n > hi:
                n = min(t + max(1, amt) * finest // 17, hi)
        out.append(n)
        t = max(t, n)
    return out


# --------------------------------------------------------------------------- prices
PRICE_MODES = ["cents", "tiny", "zero", "wide", "fx", "steps", "swing"]


@st.composite
def price_mode(draw, modes=PRICE_MODES):
    mode = draw(pick(modes))
    base = {"zero": 0, "tiny": 10000, "fx": 0}.get(mode)
    if base is None:
        base = draw(pick([10000, 0, -5000, 123456, 99999999]))
    return [mode, base]


def price_tokens(n):
    return st.lists(st.tuples(ints(-6, 6), ints(0, 5)), min_size=n, max_size=n)


SPREADS = (0, 2, 1, 3, 10, 151)
STEP = {"cents": 7, "tiny": 1, "zero": 1, "wide": 3137, "fx": 1, "steps": 100}


def price(mode, p, s):
    """[bid, ask] as floats with at most two decimals (five for fx)."""
    kind, base = mode
    if kind == "fx":
        bid = round(1.1 + p * 0.00137, 5)
        return [bid, round(bid + SPREADS[s] * 0.0001, 5)]
    # swing: prices of very different sizes
    bid = base + (17 * p ** 7 if kind == "swing" else p * STEP[kind])
    spread = SPREADS[s]
    if kind == "tiny":
        spread = (0, 1, 2, 0, 3, 2)[s]
    return [bid / 100, (bid + spread) / 100]


# --------------------------------------------------------------------- frame sets
@st.composite
def timeframe(draw, units=periods.UNITS):
    unit = draw(pick(units))
    if unit == "TICK":
        return [unit, draw(pick([1, 2, 3, 5, 7, 20]))]
    if unit == "YEAR":
        return [unit, draw(pick([1, 2, 5, 10]))]
    return [unit, draw(pick(periods.DIVISORS[unit]))]


@st.composite
def calendar(draw, zone=None):
    """Opening hours, trading days; holidays are chosen by the caller."""
    kind = draw(pick(["default", "wide", "short", "any", "single", "never", "edge"]))
    o, c = [9, 30, 0, 0], [17, 30, 0, 0]
    if kind == "wide":
        o, c = [0, 0, 0, 0], [23, 59, 59, 999999]
    elif kind == "short":
        h = draw(ints(0, 22))
        m = draw(pick([0, 30, 59]))
        o, c = [h, m, 0, 0], [h + 1, m, 0, 0]
    elif kind == "any":
        a = [draw(ints(0, 23)), draw(ints(0, 59)), draw(ints(0, 59)), draw(pick([0, 1, 999999]))]
        b = [draw(ints(0, 23)), draw(ints(0, 59)), draw(ints(0, 59)), draw(pick([0, 1, 999999]))]
        o, c = sorted([a, b])
    elif kind == "single":
        h = draw(ints(0, 23))
        o = c = [h, 0, 0, 0]
    elif kind == "never":
        o, c = [17, 30, 0, 0], [9, 30, 0, 0]
    elif kind == "edge":
        o, c = [9, 30, 0, 1], [17, 29, 59, 999999]
    days = draw(st.one_of(
        st.just(None),
        st.just([0, 1, 2, 3, 4, 5, 6]),
        st.lists(ints(0, 6), min_size=1, max_size=6, unique=True),
    ))
    return {"open": o, "close": c, "days": days}


def marks_of(cal):
    return [cal["open"], cal["close"]]


def sizes(*values):
    return pick(list(values))

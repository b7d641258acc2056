"""C23: timeframe quantities are validated and period arithmetic is consistent."""
from datetime import datetime, timedelta

import arrow
from hypothesis import strategies as st

from estrade.exceptions import TimeFrameException

from vlib import gen, observe as ob, periods, sut, tzmodel as tzm
from vlib.harness import Scenario

PROPERTY = "C23"
RULE = (
    "'quantities': every unit with every quantity from -70 to 130 and some large ones, each "
    "accepted or refused (the epic also receives a tick when accepted). 'periods': a "
    "timeframe, a zone and local times, anywhere or next to the ends of its periods and of "
    "days, weeks, months, years and leap days, from 1900 to 2036; starts and ends against the "
    "reference calendar arithmetic and the algebraic relations, asked directly and read on "
    "the frames of an epic. Non-trivial: a refused quantity; two local times in different "
    "periods."
)
ASSUMPTIONS = ["no clock change between the local time and the ends of its period, other than "
               "ones on whole hours in the middle of longer periods",
               "periods of years start after year 0 and end before year 9999"]
CYCLE = {"SECOND": 60, "MINUTE": 60, "HOUR": 12, "DAY": 7, "WEEK": 1, "MONTH": 12}


def quantities(tier):
    far = [360, 365, 600, 720, 1000, 1440, 3600, 86400, 10**6, -60, -360, -10**6]
    for unit in periods.UNITS:
        for q in list(range(-70, 131)) + far:
            yield {"unit": unit, "q": q}


def run_quantity(case, ctx):
    unit, q = case["unit"], case["q"]
    ok = q > 0 and (unit not in CYCLE or CYCLE[unit] % q == 0)
    try:
        fs = sut.frame_set(unit, q)
        got = True
    except TimeFrameException:
        got = False
    ctx.check(got is ok, "a timeframe of %d %s is %s", q, unit,
              "accepted" if got else "refused")
    ctx.nontrivial = not ok
    if got:
        ctx.check(fs.unit.name == unit and fs.unit_quantity == q, "a timeframe of %d %s is of "
                  "%s %s", q, unit, fs.unit_quantity, fs.unit)
    if got and (unit != "YEAR" or q < 1000):
        e = sut.epic("UTC")
        e.add_frame_set(fs)
        e.on_new_tick(sut.tick(0, 1577923200 * tzm.SEC, 1, 2))
        ctx.check(len(fs.frames) == 1, "%d frames after a tick", len(fs.frames))


def run_periods(case, ctx):
    unit, q, zone = case["unit"], case["q"], case["zone"]
    fs = sut.frame_set(unit, q)
    walls = sorted(datetime(*w) for w in case["walls"])
    seen = []
    for w in walls:
        what = f"{q} {unit}, {w} in {zone}"
        n = periods.ordinal(unit, q, w)
        start, end = periods.start_wall(unit, q, n), periods.start_wall(unit, q, n + 1)
        if not plain(zone, w, start, end):
            ctx.exclude("clock change next to the period")
            continue
        dt = arrow.get(w, zone)
        s = fs.get_frame_start(dt)
        ctx.check(ob.wall(s) == start, "%s: starts at %s, expected %s", what, s, start)
        ctx.check(s <= dt, "%s: starts after, %s", what, s)
        e = fs.get_frame_end(s)
        ctx.check(ob.wall(e) == end, "%s: ends at %s, expected %s", what, e, end)
        ctx.check(e > dt, "%s: ends before, %s", what, e)
        again = fs.get_frame_start(s)
        ctx.check(again == s and ob.wall(again) == start, "%s: start of the start is %s", what,
                  again)
        again = fs.get_frame_start(e)
        ctx.check(again == e and ob.wall(again) == end, "%s: start of the end %s is %s", what,
                  e, again)
        if unit in ("DAY", "WEEK") and (unit, q) != ("DAY", 1):
            ctx.check(ob.wall(s).weekday() == 0, "%s: starts on weekday %s", what,
                      ob.wall(s).weekday())
        if seen:
            ctx.check(s >= seen[-1][1], "%s: starts at %s, earlier time %s at %s", what, s,
                      *seen[-1])
            if start > ob.wall(seen[-1][1]):
                ctx.nontrivial = True
        seen.append((w, s))
        # as an epic in that zone shows it (an epic starts in 1900)
        if w.year == 1900:
            continue
        host = sut.epic(zone)
        own = sut.frame_set(unit, q)
        host.add_frame_set(own)
        host.on_new_tick(sut.Tick(datetime=dt.to("UTC"), bid=1, ask=2))
        f = own.frames[-1]
        ctx.check(ob.wall(f.period_start) == start and ob.wall(f.period_end) == end,
                  "%s: the frame of an epic is from %s to %s", what, f.period_start,
                  f.period_end)


def plain(zone, w, start, end):
    """No clock change next to the three local times."""
    if zone not in tzm.ZONES or zone == "UTC" or zone.startswith("Etc/"):
        return True
    lo, hi = tzm.ZONES[zone]
    for x in (w, start, end):
        if not lo < x.year < hi:
            return False
        us = tzm.resolve(x, zone)[0]
        if tzm.near_transition(us, zone, 86400 * tzm.SEC):
            return False
    return True


FIXED = ["UTC", "Etc/GMT+12", "Etc/GMT-14", "Etc/GMT+5", "Etc/GMT-1"]


@st.composite
def walls(draw, unit, q, years):
    i = gen.ints
    kind = draw(gen.pick(["any", "edge", "edge", "day", "week", "month", "year", "leap"]))
    y = draw(i(*years))
    w = datetime(y, draw(i(1, 12)), draw(i(1, 28)), draw(i(0, 23)), draw(i(0, 59)),
                 draw(i(0, 59)), draw(gen.pick([0, 1, 500000, 999999])))
    zero = dict(hour=0, minute=0, second=0, microsecond=0)
    if kind == "any":
        return w
    if kind == "edge":
        w = periods.start_wall(unit, q, periods.ordinal(unit, q, w) + draw(i(0, 1)))
    elif kind == "day":
        w = w.replace(**zero)
    elif kind == "week":
        w = w.replace(**zero)
        w -= timedelta(days=w.weekday())
    elif kind == "month":
        w = w.replace(day=1, **zero)
    elif kind == "year":
        w = w.replace(month=1, day=1, **zero)
    else:
        w = datetime(y, 3, 1)
    w += draw(gen.pick([timedelta(0), timedelta(microseconds=-1), timedelta(microseconds=1),
                        timedelta(seconds=-1), timedelta(days=-1), timedelta(hours=1)]))
    return w if years[0] <= w.year <= years[1] else w.replace(year=y)


@st.composite
def period_cases(draw):
    unit = draw(gen.pick(periods.UNITS[1:]))
    q = draw(gen.pick(periods.DIVISORS[unit])) if unit != "YEAR" else draw(
        st.one_of(gen.pick([1, 2, 5, 10, 100]), gen.ints(1, 900)))
    if draw(st.booleans()):
        zone, years = draw(gen.pick(FIXED)), (1900, 2036)
    else:
        zone = draw(gen.pick([z for z in tzm.ZONES if not z.startswith("Etc/")]))
        years = tuple(tzm.ZONES[zone])
    out = []
    for _ in range(draw(gen.ints(1, 6))):
        w = draw(walls(unit, q, years))
        out.append([w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond])
    return {"unit": unit, "q": q, "zone": zone, "walls": out}


SCENARIOS = [
    Scenario("quantities", run_quantity, cases=quantities),
    Scenario("periods", run_periods, period_cases, quick=16000, thorough=1200000),
]

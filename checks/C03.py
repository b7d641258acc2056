"""C03: market open state follows the epic's calendar in local time."""
import datetime as D

from hypothesis import strategies as st

from estrade.exceptions import EpicException
from vlib import gen, observe as ob, sut, tzmodel as tzm
from vlib.harness import Scenario

PROPERTY = "C03"
RULE = (
    "A case is a zone, opening hours (to the microsecond, possibly empty, single or full "
    "day), trading days, holidays drawn among the dates of the stream, and ticks around the "
    "opening and closing instants, midnights, week ends and clock changes ('calendar') or at "
    "the same days and hours of other weeks, months and years ('years'), or with the calendar "
    "and the zone changed between ticks ('changes'). Non-trivial: the market state changed, or "
    "a tick was exactly at, or 1 us beside, an opening or closing, or its state is not that of "
    "the first settings."
)
ASSUMPTIONS = ["between a change of zone and the next tick, the on-demand query is not decided"]


def run(case, ctx):
    zone, cal = case["zone"], case["cal"]
    epic = sut.epic(zone, cal, case["hols"])
    days = cal["days"] if cal["days"] is not None else [0, 1, 2, 3, 4]
    hols = {D.date(*h) for h in case["hols"]}
    o, c = sut.time_of(cal["open"]), sut.time_of(cal["close"])
    ctx.check(not epic.market_open and not epic.is_market_open(),
              "the market is open before any tick")
    edges = {t.replace(microsecond=0) for t in (o, c)}
    states = set()
    exact = False
    for i, us in enumerate(case["ticks"]):
        epic.on_new_tick(sut.tick(i, us, 10.0, 11.0, case["tz"]))
        wall = tzm.local(us, zone)
        expected = (o <= wall.time() <= c and wall.weekday() in days
                    and wall.date() not in hols)
        ctx.check(bool(epic.market_open) is expected,
                  "at %s (%s) the market is %s, expected %s", wall, wall.strftime("%a"),
                  epic.market_open, expected)
        ctx.check(bool(epic.is_market_open()) is expected,
                  "at %s is_market_open() is %s, expected %s", wall, epic.is_market_open(),
                  expected)
        states.add(expected)
        for e in (o, c):
            d = D.datetime.combine(wall.date(), e) - wall
            if abs(d) <= D.timedelta(microseconds=1):
                exact = True
        if wall.date() in hols:
            ctx.label("on a holiday")
        if wall.weekday() not in days:
            ctx.label("not a trading day")
        ctx.label("open" if expected else "closed")
    ctx.nontrivial = len(states) > 1 or exact
    if exact:
        ctx.label("exactly at opening or closing")


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    start = draw(gen.anchors(zone, gen.marks_of(cal)))
    kinds = ["mark", "mark", "mark", "frac", "day", "gap", "us", "unit", "same"]
    toks = draw(st.lists(st.tuples(gen.pick(kinds), gen.ints(0, 16), gen.ints(0, 2)),
                         min_size=draw(gen.pick([1, 6, 15])), max_size=25))
    times = gen.instants(toks, zone, start, [], pace=draw(gen.pick([3600, 900, 86400])),
                         marks=gen.marks_of(cal))
    dates = sorted({tzm.local(t, zone).date() for t in times})
    hols = draw(st.lists(gen.pick(dates), max_size=2, unique=True))
    if draw(gen.ints(0, 3)) == 0:
        hols.append(D.date(2019, 12, 25))
        d = draw(gen.pick(dates))
        hols.append(d.replace(year=d.year - 1, day=min(d.day, 28)))
    tz = draw(gen.pick([zone, "UTC", "Asia/Tokyo", "Pacific/Pago_Pago"]))
    return {"zone": zone, "cal": cal, "ticks": times, "tz": tz,
            "hols": [[d.year, d.month, d.day] for d in hols]}


@st.composite
def years(draw):
    """A long history: the same days and hours of other weeks, months and years."""
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    lo, hi = tzm.bounds(zone)
    first = D.date(1970, 1, 1) + D.timedelta(
        days=draw(gen.ints(lo // gen.DAY + 2, hi // gen.DAY - 12 * 366)))
    steps = draw(st.lists(gen.pick([365, 366, 7, 28, 31, 364, 1, 730, 1461, 30, 91]),
                          min_size=1, max_size=10))
    days = [first]
    for k in steps:
        days.append(min(days[-1] + D.timedelta(days=k), first + D.timedelta(days=12 * 365)))
    times = []
    for d in days:
        for _ in range(draw(gen.ints(1, 2))):
            h, m, s, us = draw(gen.pick([cal["open"], cal["close"], [12, 0, 0, 0],
                                         [0, 0, 0, 0], [23, 59, 59, 999999]]))
            wall = D.datetime.combine(d, D.time(h, m, s, us))
            times.append(tzm.resolve(wall, zone)[0])
    times.sort()
    dates = sorted({tzm.local(t, zone).date() for t in times})
    hols = draw(st.lists(gen.pick(dates), max_size=3, unique=True))
    tz = draw(gen.pick([zone, "UTC", "Asia/Tokyo"]))
    return {"zone": zone, "cal": cal, "ticks": times, "tz": tz,
            "hols": [[d.year, d.month, d.day] for d in hols]}


# ------------------------------------------------------------- settings which change
def expected_at(us, st_):
    wall = tzm.local(us, st_["zone"])
    return (st_["open"] <= wall.time() <= st_["close"] and wall.weekday() in st_["days"]
            and wall.date() not in st_["hols"])


def change(epic, now, kind, val, i, ctx):
    """Change a setting of the epic, and of the model."""
    if kind in ("open", "close"):
        now[kind] = sut.time_of(val)
        setattr(epic, f"{kind}_time", sut.time_of(val))
    elif kind == "hours":
        now["open"], now["close"] = sut.time_of(val[0]), sut.time_of(val[1])
        epic.open_time, epic.close_time = now["open"], now["close"]
    elif kind == "days":
        now["days"] = list(val)
        epic.trade_days = list(val)
    elif kind == "hols":
        now["hols"] = {D.date(*d) for d in val}
        epic.holidays = [D.date(*d) for d in val]
    elif kind == "holiday":
        d = D.date(*val)
        now["hols"] = now["hols"] | {d}
        epic.holidays.append(d)
    elif kind == "zone":
        now["zone"] = val
        epic.timezone = val
        return True
    elif kind == "bad":
        try:
            epic.timezone = val
        except EpicException:
            pass
        else:
            ctx.fail("before tick %d: timezone %r was accepted", i, val)
        ctx.eq(epic.timezone, now["zone"], f"timezone after {val!r} was refused")
    return False


def run_changes(case, ctx):
    cal = case["cal"]
    epic = sut.epic(case["zone"], cal, case["hols"])
    now = {"zone": case["zone"], "open": sut.time_of(cal["open"]),
           "close": sut.time_of(cal["close"]), "hols": {D.date(*h) for h in case["hols"]},
           "days": cal["days"] if cal["days"] is not None else [0, 1, 2, 3, 4]}
    states = []
    mattered = False
    first = dict(now)
    for i, us in enumerate(case["ticks"]):
        moved = False
        for n, kind, val in case["changes"]:
            if n != i:
                continue
            moved = change(epic, now, kind, val, i, ctx) or moved
            ctx.label(f"changed: {kind}")
            if i:
                ctx.check(bool(epic.market_open) is states[-1], "the market was %s at the last "
                          "tick, %s after a change of %s", states[-1], epic.market_open, kind)
                if not moved:
                    exp = expected_at(case["ticks"][i - 1], now)
                    ctx.check(bool(epic.is_market_open()) is exp, "after a change of %s to %s, "
                              "is_market_open() is %s for the last tick, expected %s", kind,
                              val, epic.is_market_open(), exp)
        epic.on_new_tick(sut.tick(i, us, 10.0, 11.0, case["tz"]))
        exp = expected_at(us, now)
        mattered = mattered or exp != expected_at(us, first)
        ctx.check(bool(epic.market_open) is exp and bool(epic.is_market_open()) is exp,
                  "at %s with %s the market is %s and is_market_open() %s, expected %s",
                  tzm.local(us, now["zone"]), now, epic.market_open, epic.is_market_open(), exp)
        ctx.eq(ob.wall(epic.last_tick.datetime), tzm.local(us, now["zone"]),
               f"local time of tick {i} in {now['zone']}")
        states.append(exp)
    ctx.nontrivial = mattered
    if mattered:
        ctx.label("a change mattered")


@st.composite
def changing(draw):
    base = draw(programs())
    zone, times = base["zone"], base["ticks"]
    dates = sorted({tzm.local(t, zone).date() for t in times})
    dates = [[d.year, d.month, d.day] for d in dates]
    out = []
    for _ in range(draw(gen.ints(1, 5))):
        i = draw(gen.ints(0, len(times) - 1))
        kind = draw(gen.pick(["hours", "open", "close", "days", "holiday", "hols", "zone",
                              "bad"]))
        if kind in ("hours", "open", "close"):
            w = tzm.local(times[draw(gen.ints(i, len(times) - 1))], zone)
            near = [w.hour, w.minute, w.second, w.microsecond]
            other = draw(gen.calendar())
            val = {"open": draw(gen.pick([near, other["open"]])),
                   "close": draw(gen.pick([near, other["close"]])),
                   "hours": draw(gen.pick([[other["open"], other["close"]], [near, near],
                                           [[0, 0, 0, 0], [23, 59, 59, 999999]]]))}[kind]
        elif kind == "days":
            val = draw(st.lists(gen.ints(0, 6), min_size=0, max_size=7, unique=True))
        elif kind == "hols":
            val = draw(st.lists(gen.pick(dates), max_size=3, unique_by=tuple))
        elif kind == "holiday":
            val = draw(gen.pick(dates))
        elif kind == "zone":
            val = draw(gen.pick([z for z in tzm.ZONES if tzm.bounds(z)[0] <= times[0]
                                 and times[-1] <= tzm.bounds(z)[1]] or [zone]))
        else:
            val = draw(gen.pick(["", "utc+1", "Europe/Nowhere", "Paris", " UTC"]))
        out.append([i, kind, val])
    return dict(base, changes=out)


SCENARIOS = [Scenario("calendar", run, programs, quick=20000, thorough=1500000),
             Scenario("years", run, years, quick=5000, thorough=400000),
             Scenario("changes", run_changes, changing, quick=6000, thorough=400000)]

"""C02: an epic accepts exactly the chronological ticks and refuses others whole."""
import arrow
import pytz
from hypothesis import strategies as st

from estrade import Epic
from estrade.exceptions import EpicException
from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.harness import Scenario
from vlib.world import World, diff

PROPERTY = "C02"
RULE = (
    "history: an epic (any zone, calendar, frame sets with indicators, strategies, open "
    "trades) receives ticks each expressed in its own zone, some of them earlier than the "
    "last accepted one by anything from 1 us to hours, also inside repeated and skipped "
    "hours; next to it a twin gets the chronological ticks only. Non-trivial: at least one "
    "refusal followed by an accepted tick, or ticks in two zones around a clock change. "
    "zones: every pytz name receives two ticks. names: text which is not a zone name."
)


def run_history(case, ctx):
    zone = case["zone"]
    w = World(case)
    twin = World(case)
    last = None
    refused_at = None
    again = False
    sent = []
    for i, (us, bid, ask, tz) in enumerate(case["ticks"]):
        if i == case.get("trade_at") and last is not None:
            for x in (w, twin):
                x.epic.open_trade(direction=sut.direction("BUY"), quantity=2,
                                  strategy=x.strategies[0] if x.strategies else None,
                                  ref="t")
                world.join_threads(x.epic.trade_provider)
        before = w.snapshot()
        tick = sut.tick(i, us, bid, ask, tz)
        try:
            w.epic.on_new_tick(tick)
            error = None
        except EpicException as e:
            error = e
        late = last is not None and us < last
        if late:
            ctx.check(error is not None, "tick %d (%s) accepted after %s", i,
                      tzm.utc(us), tzm.utc(last))
            d = diff(before, w.snapshot())
            ctx.check(d is None, "refused tick %d changed %s", i, d)
            refused_at = i
            ctx.label("refused")
            continue
        ctx.check(error is None, "tick %d (%s) refused after %s", i, tzm.utc(us),
                  None if last is None else tzm.utc(last))
        if refused_at is not None:
            again = True
        last = us
        twin.epic.on_new_tick(sut.tick(i, us, bid, ask))
        sent.append((tick, i, us, bid, ask))
        for at, back in case.get("resend", ()):
            # the same object once more
            if at != i or back >= len(sent):
                continue
            old, *spec = sent[-1 - back]
            before = w.snapshot()
            try:
                w.epic.on_new_tick(old)
                ctx.check(spec[1] >= us, "tick %d (%s), sent again, accepted after %s", spec[0],
                          tzm.utc(spec[1]), tzm.utc(us))
                twin.epic.on_new_tick(sut.tick(*spec))
                ctx.label("same tick object again")
            except EpicException:
                ctx.check(spec[1] < us, "tick %d, sent again, refused after %s", spec[0],
                          tzm.utc(us))
                d = diff(before, w.snapshot())
                ctx.check(d is None, "tick %d, refused when sent again, changed %s", spec[0], d)
                continue
            i, us, bid, ask = spec
        t = w.epic.last_tick
        ctx.eq(ob.tid(t), i, "last tick")
        ctx.eq(ob.us(t.datetime), us, f"instant of tick {i}")
        ctx.eq(ob.wall(t.datetime), tzm.local(us, zone), f"local time of tick {i}")
        ctx.check(t.bid == bid and t.ask == ask, "prices of tick %d", i)
        ctx.label("accepted")
    d = diff(w.snapshot(), twin.snapshot())
    ctx.check(d is None, "refused ticks, or the zone of ticks, left a difference: %s", d)
    zones = {t[3] for t in case["ticks"]}
    ts = [t[0] for t in case["ticks"]]
    dst = tzm.offset_us(min(ts), zone) != tzm.offset_us(max(ts), zone)
    ctx.nontrivial = again or (len(zones) > 1 and dst)
    if dst:
        ctx.label("clock change inside")


@st.composite
def histories(draw, dst=False):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(max_sets=2))
    start = None
    if dst and tzm.transitions(zone):
        start = draw(gen.pick(tzm.transitions(zone))) - draw(gen.ints(0, 40)) * 300 * tzm.SEC
        fs = draw(world.graphs(["HOUR", "DAY", "TICK", "WEEK"], max_sets=1))
    ticks = draw(world.stream(zone, fs, cal=cal, backwards=True, sizes=(0, 4, 12),
                              max_size=25, start=start, smooth=dst))
    zs = [zone, "UTC", draw(gen.zones())]
    picks = draw(st.lists(gen.ints(0, 2), min_size=len(ticks), max_size=len(ticks)))
    return {"zone": zone, "cal": cal, "fs": fs, "strats": draw(gen.ints(0, 2)),
            "trade_at": draw(gen.ints(1, 6)),
            "resend": draw(st.lists(st.tuples(gen.ints(0, 12), gen.pick([0, 0, 1, 2])).map(list),
                                    max_size=2)) if draw(gen.ints(0, 3)) == 3 else [],
            "ticks": [t + [zs[p]] for t, p in zip(ticks, picks)]}


INSTANTS = [
    126230400, 200000000, 354675600, 417142800, 575946000, 733276800, 828234000,
    930000000, 1017536400, 1143334800, 1256432400, 1300000000, 1333242000, 1382835600,
    1414285200, 1509238800, 1553994000, 1572138000,
]


CHANGES = {417142800, 575946000, 354675600, 733276800, 828234000, 1017536400, 1143334800,
           1256432400, 1333242000, 1382835600, 1414285200, 1509238800, 1553994000,
           1572138000}


def run_zone(case, ctx):
    name = case["zone"]
    epic = Epic(timezone=name)
    ctx.eq(epic.timezone, name, "zone")
    start = case["start"]
    for i, s in enumerate([start, start + 1800, start + 1800, start + 3600, start + 9000]):
        us = s * tzm.SEC
        epic.on_new_tick(sut.tick(i, us, 1.0, 1.0))
        ctx.eq(ob.tid(epic.last_tick), i, "last tick")
        ctx.eq(ob.us(epic.last_tick.datetime), us, f"instant in {name}")
        if name in ORACLE:
            expected = tzm.local(us, name)
        else:  # old names: not in the system data
            expected = tzm.utc(us).astimezone(pytz.timezone(name)).replace(tzinfo=None)
        ctx.eq(ob.wall(epic.last_tick.datetime), expected, f"local time in {name}")
    try:
        epic.on_new_tick(sut.tick(9, (start + 8999) * tzm.SEC, 1.0, 1.0))
        ctx.fail("earlier tick accepted")
    except EpicException:
        pass
    ctx.nontrivial = True


def _oracle():
    import zoneinfo

    return zoneinfo.available_timezones()


ORACLE = _oracle()


def zone_cases(tier):
    # dateutil reads 32 bit data: rare zones with pre-1972 rules are avoided by INSTANTS
    for k, name in enumerate(pytz.all_timezones):
        picks = INSTANTS if tier == "thorough" else [INSTANTS[k % len(INSTANTS)],
                                                     INSTANTS[(k * 7 + 5) % len(INSTANTS)]]
        for s in picks:
            if name not in ORACLE and s in CHANGES:
                # old names come with dateutil's own data, whose negative summer time
                # dateutil itself mishandles during the change: not estrade's matter
                s += 5 * 86400
            yield {"zone": name, "start": s}


def run_name(case, ctx):
    name = case["name"]
    known = name in set(pytz.all_timezones)
    if known:
        Epic(timezone=name)
        return
    try:
        Epic(timezone=name)
        ctx.fail(f"zone name {name!r} accepted")
    except EpicException:
        pass
    epic = Epic(timezone="Europe/Paris")
    try:
        epic.timezone = name
        ctx.fail(f"zone name {name!r} accepted")
    except EpicException:
        pass
    ctx.eq(epic.timezone, "Europe/Paris", "zone after refusal")
    epic.on_new_tick(sut.tick(0, 1593590400 * tzm.SEC, 1.0, 1.0))
    ctx.eq(ob.wall(epic.last_tick.datetime).hour, 10, "hour")
    ctx.nontrivial = True


def names():
    real = st.sampled_from(sorted(pytz.all_timezones))
    return st.one_of(
        st.text(max_size=12),
        real.map(str.lower), real.map(str.upper), real.map(lambda x: x[:-1]),
        real.map(lambda x: x + " "), real.map(lambda x: " " + x),
        st.sampled_from(["+01:00", "local", "utc", "CEST", "UTC+1", "Z", "", "01:00"]),
    ).map(lambda n: {"name": n})


SCENARIOS = [
    Scenario("zones", run_zone, cases=zone_cases),
    Scenario("names", run_name, names, quick=500, thorough=20000),
    Scenario("history", run_history, lambda: histories(), quick=4000, thorough=250000),
    Scenario("clock", run_history, lambda: histories(True), quick=3000, thorough=200000),
]

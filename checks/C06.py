"""C06: time frames tile local time and hold exactly the ticks of their period."""
from hypothesis import strategies as st

from vlib import frames, gen, observe as ob, sut, tzmodel as tzm, world
from vlib.frames import Tracked, compare_periods
from vlib.harness import Scenario
from vlib.periods import Excluded

PROPERTY = "C06"
RULE = (
    "A case is a zone, one to three time frame sets (any unit and allowed quantity, any "
    "history limit, possibly registered late) and a chronological tick stream whose steps "
    "are relative to the frame length (same instant, fractions, exact boundaries and 1 us "
    "around them, several periods, days, clock changes). Non-trivial: at least three frames "
    "of one set, and a tick exactly on a boundary, an empty frame or a clock change within."
)
ASSUMPTIONS = [
    "local time from zoneinfo (independent of dateutil used by the package), 1972-2036",
    "clock changes whose start is off the grid of the frame set are outside the domain",
    "ticks whose local time moves back to an earlier period are the known finding",
]
TIMED = ["SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"]


def run(case, ctx):
    zone = case["zone"]
    epic = sut.epic(zone)
    tracked = [Tracked(dict(s, ref=f"f{i}"), zone) for i, s in enumerate(case["fs"])]
    exact = empty = dst = cut = False
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        for tr in tracked:
            if not tr.active and tr.spec.get("late", 0) <= i:
                epic.add_frame_set(tr.fs)
                tr.active = True
        try:
            for tr in tracked:
                if tr.active:
                    n = tr.model.add(i, us)
                    cur = tr.model.frames[-1]
                    exact |= cur.get("start_us") == us
                    empty |= n > 1
        except Excluded as e:
            if not case.get("strict"):
                ctx.exclude(str(e))
                cut = True
                break
            epic.on_new_tick(sut.tick(i, us, bid, ask))
            o = ob.frame(tr.fs.frames[-1])
            wall = tzm.local(us, zone)
            if not (o["start"] <= wall < o["end"]):
                ctx.fail(f"tick of local time {wall} (second pass of a repeated hour) is in "
                         f"the frame {o['start']} - {o['end']}")
            return
        epic.on_new_tick(sut.tick(i, us, bid, ask))
        last = i == len(case["ticks"]) - 1
        for tr in tracked:
            if tr.active:
                compare_periods(ctx, tr, full=last or i % 8 == 7)
    ticks = case["ticks"]
    dst = any(tzm.offset_us(a[0], zone) != tzm.offset_us(b[0], zone)
              for a, b in zip(ticks, ticks[1:]))
    for tr in tracked:
        if tr.active and not cut:
            compare_periods(ctx, tr)
    if max(len(tr.model.frames) for tr in tracked) >= 3 and (exact or empty or dst):
        ctx.nontrivial = True
    if exact:
        ctx.label("tick on a boundary")
    if empty:
        ctx.label("empty frames")
    if dst:
        ctx.label("clock change inside")
    if any(len(tr.model.frames) > tr.n for tr in tracked):
        ctx.label("frames dropped")


@st.composite
def programs(draw, units=TIMED, dst=False):
    zone = draw(gen.zones())
    specs = []
    for _ in range(draw(gen.pick([1, 1, 2, 3, 5]))):
        u, q = draw(gen.timeframe(units))
        s = {"unit": u, "q": q, "n": draw(gen.pick([None, 3, 1, 2, 5, 1000]))}
        if draw(gen.ints(0, 9)) == 9:
            s["late"] = draw(gen.ints(1, 6))
        specs.append(s)
    if dst and tzm.transitions(zone):
        start = draw(gen.pick(tzm.transitions(zone))) - draw(gen.ints(0, 60)) * 300 * tzm.SEC
    else:
        start = draw(gen.anchors(zone))
    toks = draw(gen.tokens(draw(gen.pick([0, 4, 12, 30])), 45))
    times = gen.instants(toks, zone, start, [(s["unit"], s["q"]) for s in specs])
    return {"zone": zone, "fs": specs,
            "ticks": [[t, 100.0, 100.0 + (i % 3)] for i, t in enumerate(times)]}


SCENARIOS = [
    Scenario("tiles", run, lambda: programs(), quick=6000, thorough=400000),
    Scenario("clock", run, lambda: programs(["HOUR", "DAY", "MINUTE", "WEEK", "MONTH"], True),
             quick=5000, thorough=300000),
    Scenario("fine", run, lambda: programs(["SECOND", "MINUTE"]), quick=2000,
             thorough=150000),
    Scenario("long", world.lengthen(run),
             lambda: world.long(programs(), gaps=(1, 7, 30, 600)),
             quick=400, thorough=12000),
]

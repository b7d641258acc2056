"""C26: memory stays bounded: what is dropped is released."""
import weakref

from hypothesis import strategies as st

from estrade.exceptions import EpicException
from vlib import gen, observe as ob, periods, sut, tzmodel as tzm, world
from vlib.gen import pick
from vlib.harness import REAL_COLLECT, Scenario
from vlib.world import Recorder

PROPERTY = "C26"
RULE = (
    "A case is an epic (zone, calendar) with up to three frame sets of any unit keeping 2 to 6 "
    "frames, indicators of every kind restricted to market hours or not, strategies, up to 60 trades "
    "(left open or closed at once), and a "
    "pattern of ticks (with gaps, same instants, refused ones) repeated until up to hundreds of "
    "frames were dropped. Every 40 ticks and at the end, garbage is collected and the frames, "
    "indicator values and ticks still alive are counted against those within the limits (the "
    "program itself may hold up to two frames of each set, dropped meanwhile). "
    "Non-trivial: at least 25 frames dropped by one set, or 40 ticks received by an epic without "
    "frame sets."
)
ASSUMPTIONS = [
    "one more frame for each frame set, and three more ticks for each frame set and indicator, "
    "may stay alive (their number may not grow with the history)",
    "the trades themselves and their closings may be kept, not the ticks they were made at",
]


def alive(refs):
    return [r for r in refs if r() is not None]


def run(case, ctx):
    zone = case["zone"]
    epic = sut.epic(zone, case["cal"])
    sets = []
    for k, s in enumerate(case["fs"]):
        fs = sut.frame_set(s["unit"], s["q"], s["n"], f"f{k}")
        for spec in s["ind"]:
            fs.add_indicator(sut.indicator(spec))
        epic.add_frame_set(fs)
        sets.append((fs, s))
    for k in range(case["strats"]):
        epic.add_strategy(Recorder(ref=f"s{k}"))
    ticks, frames, values = {}, {}, {}
    held = {}
    made = {k: 0 for k in range(len(sets))}
    newest = {k: None for k in range(len(sets))}
    start = case["start"]
    fine = case["pace"] * tzm.SEC
    us = start
    hi = tzm.bounds(zone)[1]
    i = 0
    dropped = 0
    trades, trading = [], case.get("trade", 0)
    for rep in range(case["reps"]):
        for step, p in case["pattern"]:
            n = us + step * fine // 4
            if n > hi or (step < 0 and i == 0):
                continue
            bid, ask = gen.price(case["mode"], p, 1)
            tick = sut.tick(i, max(us, n), bid, ask)
            if step < 0:
                tick = sut.tick(i, us - fine, bid, ask)
                try:
                    epic.on_new_tick(tick)
                    ctx.fail("anterior tick accepted")
                except EpicException:
                    pass
            else:
                us = n
                epic.on_new_tick(tick)
                if trading and i % trading == 0 and len(trades) < 60:
                    trades.append(epic.open_trade(
                        direction=sut.direction("BUY" if p % 3 else "SELL"), quantity=2,
                        strategy=epic.strategies.get("s0")))
                    if len(trades) % 3:
                        epic.close_trade(trades[-1], quantity=len(trades) % 3)
            if not hold(ctx, ticks, i, tick):
                return
            del tick
            i += 1
            for k, (fs, s) in enumerate(sets):
                for f in fs.frames:
                    if f not in Seen(frames.get(k)):
                        frames.setdefault(k, []).append(weakref.ref(f))
                        if made[k] in case.get("hold", ()):
                            held.setdefault(k, []).append(f)
                        made[k] += 1
                    for ref, v in f.indicators.items():
                        if v is not None and v not in Seen(values.get((k, ref))):
                            values.setdefault((k, ref), []).append(weakref.ref(v))
                f = v = None
            if i % 40 == 0:
                count(ctx, epic, sets, ticks, frames, values, i, held)
    count(ctx, epic, sets, ticks, frames, values, i, held)
    dropped = max([made[k] - len(fs.frames) for k, (fs, s) in enumerate(sets)], default=0)
    ctx.nontrivial = dropped >= 25 or (not sets and i >= 40)
    ctx.label("frames dropped", dropped)


class Seen:
    """Whether an object is among the last weak references taken."""

    def __init__(self, refs):
        self.refs = refs or []

    def __contains__(self, o):
        return any(r() is o for r in self.refs[-12:])


def hold(ctx, ticks, i, tick):
    try:
        ticks[i] = weakref.ref(tick)
    except TypeError:  # objects without weak references: not decided
        ctx.exclude("no weak references")
        return False
    return True


def count(ctx, epic, sets, ticks, frames, values, i, held):
    REAL_COLLECT()
    shown = {ob.tid(epic.last_tick)}
    slack = 3
    for k, (fs, s) in enumerate(sets):
        kept = list(fs.frames)
        shown.update(ob.tid(t) for f in kept for t in (f.first_tick, f.last_tick))
        mine = held.get(k, [])
        slack += 4 * len(mine) * (1 + len(s["ind"]))
        slack += 3 * (1 + len(s["ind"]))
        extra = [r() for r in alive(frames.get(k, []))]
        extra = [f for f in extra if not any(f is x for x in kept + mine)]
        ctx.check(len(kept) <= s["n"], "%d frames kept with a limit of %d", len(kept), s["n"])
        ctx.check(len(extra) <= 1, "frame set %s %s keeping %d frames: %d dropped frames are "
                  "still in memory after %d ticks", s["q"], s["unit"], s["n"], len(extra), i)
        for spec in s["ind"]:
            live = alive(values.get((k, spec["ref"]), []))
            ctx.check(len(live) <= len(kept) + len(mine) + 1, "%s %s keeping %d frames: %d values of %s in "
                      "memory after %d ticks", s["q"], s["unit"], s["n"], len(live), spec, i)
        del kept, extra, mine
    first = min(x for x in shown if x is not None) if shown - {None} else 0
    old = [n for n, r in ticks.items() if n < first and r() is not None]
    ctx.check(len(old) <= slack, "%d ticks older than those kept are still in memory after %d "
              "ticks (%s...)", len(old), i, old[:5])
    refused = [n for n, r in ticks.items() if n >= first and r() is not None]
    if not sets:
        ctx.check(len(refused) <= slack, "%d ticks in memory without any frame set",
                  len(refused))
    for n in [n for n, r in ticks.items() if r() is None]:
        del ticks[n]


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(units=["TICK", "SECOND", "MINUTE", "HOUR", "DAY", "TICK", "MINUTE",
                                  "HOUR", "WEEK", "MONTH"],
                           limits=(3, 1, 2, 4, 6), market=True))
    if draw(gen.ints(0, 7)) == 7:
        fs = []
    timed = [periods.length_s(s["unit"], s["q"]) for s in fs if s["unit"] != "TICK"]
    pace = draw(pick([min(timed), max(timed)])) if timed else 3600
    if timed and pace / min(timed) > 400:
        pace = min(timed)
    pace = max(4, pace)
    steps = st.one_of(gen.ints(1, 5), pick([4, 4, 2, 8]), pick([0, 12, 21, -1]))
    pattern = draw(st.lists(st.tuples(steps, gen.ints(-6, 6)), min_size=1, max_size=8))
    if not any(s > 0 for s, _ in pattern):
        pattern.append((4, 1))
    lo, hi = tzm.bounds(zone)
    start = draw(gen.anchors(zone, gen.marks_of(cal)))
    return {"zone": zone, "cal": cal, "fs": fs,
            "hold": draw(st.lists(gen.ints(0, 30), max_size=2, unique=True)), "pace": pace, "pattern": pattern,
            "reps": draw(pick([12, 8, 20, 30])), "mode": draw(gen.price_mode()),
            "strats": draw(gen.ints(0, 2)), "start": start,
            "trade": draw(pick([0, 0, 1, 2, 5]))}


SCENARIOS = [Scenario("memory", run, programs, quick=1500, thorough=60000)]

"""C07: tick-count frames hold their quota and never span two local days."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.frames import Tracked
from vlib.harness import Scenario

PROPERTY = "C07"
RULE = (
    "A case is a zone, one to three tick-count frame sets (quota 1 to 20, any history limit, "
    "possibly registered late, next to time frame sets) and a stream with many ticks around "
    "local midnights (exact, 1 us around), gaps of several days, and clock changes. "
    "Non-trivial: a day change inside a not yet full frame and a frame ended by its quota."
)


def run(case, ctx):
    zone = case["zone"]
    epic = sut.epic(zone)
    tracked = [Tracked(dict(s, ref=f"f{i}"), zone) for i, s in enumerate(case["fs"])]
    for k, (u, q) in enumerate(case["others"]):
        epic.add_frame_set(sut.frame_set(u, q, 5, f"other{k}"))
    rolled = filled = False
    for i, us in enumerate(case["ticks"]):
        for tr in tracked:
            if not tr.active and tr.spec.get("late", 0) <= i:
                epic.add_frame_set(tr.fs)
                tr.active = True
        for tr in tracked:
            if tr.active:
                size = len(tr.model.frames[-1]["ticks"]) if tr.model.frames else None
                if tr.model.add(i, us) and size is not None:
                    if size < tr.spec["q"]:
                        rolled = True
                    else:
                        filled = True
        epic.on_new_tick(sut.tick(i, us, 5.0, 5.0 + i % 3))
        for tr in tracked:
            if not tr.active:
                continue
            kept = tr.kept()
            objs = list(tr.fs.frames)
            wall = tzm.local(us, zone)
            what = f"{tr.spec['q']} ticks, after tick {i} at {wall}"
            ctx.check(len(objs) == len(kept), "%s: %d frames, expected %d (current: %s)",
                      what, len(objs), len(kept), ob.frame(objs[-1]) if objs else None)
            full = i % 6 == 5 or i == len(case["ticks"]) - 1
            for m, f in list(zip(kept, objs))[0 if full else -2:]:
                o = ob.frame(f)
                ids = m["ticks"]
                ctx.check(o["nb"] == len(ids) and o["first"] == ids[0]
                          and o["last"] == ids[-1],
                          "%s: frame holds %d ticks from %s to %s, expected %s", what,
                          o["nb"], o["first"], o["last"], ids)
                ctx.check(o["start"] == m["start"], "%s: frame starts %s, expected %s", what,
                          o["start"], m["start"])
                ctx.check(ob.us(f.period_start) == case["ticks"][ids[0]],
                          "%s: frame starts at another instant than its first tick", what)
    ctx.nontrivial = rolled and filled
    if rolled:
        ctx.label("day change in a frame")
    if filled:
        ctx.label("quota reached")


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    specs = []
    for _ in range(draw(gen.pick([1, 1, 2, 3]))):
        s = {"unit": "TICK", "q": draw(gen.pick([2, 3, 1, 4, 5, 7, 20])),
             "n": draw(gen.pick([None, 2, 1, 3, 1000]))}
        if draw(gen.ints(0, 9)) == 9:
            s["late"] = draw(gen.ints(1, 5))
        specs.append(s)
    others = draw(st.lists(gen.pick([["MINUTE", 30], ["DAY", 1], ["HOUR", 1], ["TICK", 3]]),
                           max_size=2))
    others = [list(x) for x in others]
    start = draw(gen.anchors(zone))
    kinds = ["frac", "day", "frac", "day", "same", "unit", "us", "gap"]
    toks = draw(st.lists(st.tuples(gen.pick(kinds), gen.ints(0, 16), gen.ints(0, 2)),
                         min_size=draw(gen.pick([1, 6, 16, 30])), max_size=45))
    times = gen.instants(toks, zone, start, [], pace=draw(gen.pick([3600, 60, 7200])),
                         max_gap=2000)
    return {"zone": zone, "fs": specs, "others": others, "ticks": times}


def run_long(case, ctx):
    ticks = [t[0] for t in world.walk(case["ticks"])]
    ctx.label("ticks", len(ticks))
    run(dict(case, ticks=ticks), ctx)


@st.composite
def long(draw):
    """Frames of many ticks."""
    case = draw(programs())
    for s in case["fs"]:
        s["q"] = draw(gen.pick([50, 30, 100, 250, 1000]))
    start = case["ticks"][0] if case["ticks"] else draw(gen.anchors(case["zone"]))
    case["ticks"] = {
        "start": start, "step": draw(gen.pick([600, 60, 1, 1800, 7200])) * tzm.SEC,
        "count": draw(gen.pick([300, 120, 600])), "seed": draw(gen.ints(0, 2**32)), "base": 1,
        "swing": 1, "gap": draw(gen.pick([1, 7, 30])), "until": tzm.bounds(case["zone"])[1]}
    return case


SCENARIOS = [
    Scenario("quota", run, programs, quick=12000, thorough=800000),
    Scenario("long", run_long, long, quick=300, thorough=12000),
]

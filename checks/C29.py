"""C29: frame sets added during a history start afresh."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.harness import Scenario
from vlib.world import World, diff

PROPERTY = "C29"
RULE = (
    "A case is an epic (any zone and calendar) with frame sets and a stream; at any moments of "
    "it (also from within a notification, from which it takes effect with the next tick) more "
    "frame sets of any unit with indicators of every kind, restricted to market hours or not, "
    "are added, sometimes under a generated reference. After each tick everything an added "
    "frame set shows is compared with a frame set of the same settings on a new epic which "
    "only receives the ticks since it was added, and the earlier frame sets with those of an "
    "epic where none was added. Non-trivial: an added frame set of three frames or more after "
    "several earlier ticks."
)
ASSUMPTIONS = ["the new epic has the calendar and zone of the first one; market openings and "
               "closings around the moment are notified to strategies only, not compared"]


def build(s, ref):
    fs = sut.frame_set(s["unit"], s["q"], s.get("n"), ref)
    for spec in s["ind"]:
        fs.add_indicator(sut.indicator(spec))
    return fs


def run(case, ctx):
    plan = {}
    for n, how, s in case["late"]:
        plan.setdefault(n, []).append((how, s))
    added = []  # (frame set, spec, new epic, its frame set, first tick)
    state = {"n": -1}

    def add(s, epic, since):
        ref = None if s.get("anon") else f"late{len(added)}"
        fs = build(s, ref)
        epic.add_frame_set(fs)
        ctx.check(epic.frame_sets[fs.ref] is fs and fs.epic is epic, "%s is not registered", s)
        other = sut.epic(case["zone"], case["cal"], case["hols"], "new")
        mine = build(s, "mine")
        other.add_frame_set(mine)
        added.append((fs, s, other, mine, since))

    def hook(self, event, epic):
        for how, s in plan.get(state["n"], []):
            if how == event and epic is w.epic and id(s) not in done:
                done.add(id(s))
                add(s, epic, state["n"] + 1)

    done = set()
    w = World(dict(case, strats=1), hook=hook)
    twin = World(dict(case, strats=1))
    deep = 0
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        state["n"] = i
        for how, s in plan.get(i, []):
            if how == "between":
                add(s, w.epic, i)
        tick = sut.tick(i, us, bid, ask)
        w.epic.on_new_tick(tick)
        twin.epic.on_new_tick(sut.tick(i, us, bid, ask))
        for fs, s, other, mine, since in added:
            if i < since:
                ctx.check(not len(fs.frames), "%s added after tick %d has a frame", s, i)
                continue
            other.on_new_tick(sut.tick(i, us, bid, ask))
            a = world.read_frame_set(fs, s["ind"])
            b = world.read_frame_set(mine, s["ind"])
            d = diff(a, b)
            ctx.check(d is None, "%s %s added before tick %d, after tick %d: differs from a "
                      "new one: %s", s["q"], s["unit"], since, i, d)
            for offset in (0, 1, len(a), len(a) - 1):
                f = w.epic.get_frame(fs.ref, offset=offset)
                g = other.get_frame("mine", offset=offset)
                ctx.check((f is None) == (g is None), "%s %s added before tick %d: frame %d is "
                          "%s, of a new one %s", s["q"], s["unit"], since, offset, f, g)
            if since >= 3 and len(a) >= 3:
                deep += 1
        if i % 3 == 0 or i == len(case["ticks"]) - 1:
            d = diff(w.graphs(), twin.graphs()) or diff(w.market(), twin.market())
            ctx.check(d is None, "frame sets of the start, with and without later ones: %s", d)
    d = diff(w.notes(), twin.notes())
    ctx.check(d is None, "notices with and without later frame sets: %s", d)
    ctx.nontrivial = deep > 0


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(limits=(None, 3, 1, 10), max_sets=2, market=True))
    late = []
    sets = draw(world.graphs(limits=(None, 2, 1, 3, 5, 30), max_sets=3, market=True))
    # streams follow the frame sets they are given: the added ones matter
    pool = fs + sets if draw(st.booleans()) else sets
    ticks = draw(world.stream(zone, pool, cal=cal, sizes=(8, 3, 16, 24), max_size=34,
                              smooth=draw(gen.ints(0, 3)) > 0))
    finest = min(gen.periods.length_s(s["unit"], s["q"]) for s in pool if s["unit"] != "TICK") \
        if any(s["unit"] != "TICK" for s in pool) else 60
    # no frame set is much finer than those the stream was made for
    fs = [s for s in fs if s["unit"] == "TICK"
          or gen.periods.length_s(s["unit"], s["q"]) * 40 >= finest]
    last = len(ticks) - 1
    if draw(gen.ints(0, 3)) == 3:  # the timeframe of an earlier one, with or without indicators
        one = dict(draw(gen.pick(fs + sets)), n=draw(gen.pick([None, 2, 5])))
        if draw(st.booleans()):
            one["ind"] = []
            for s in fs:
                if (s["unit"], s["q"]) == (one["unit"], one["q"]):
                    s["ind"] = []
        else:
            one["n"] = None
        sets.append(one)
    for s in sets:
        if draw(gen.ints(0, 4)) == 4:
            s["anon"] = True
        late.append([min(last, draw(gen.pick([3, 1, 0, 5, 10]))),
                     draw(gen.pick(["between", "between", "every", "in", "open"])), s])
    return {"zone": zone, "cal": cal, "hols": [], "fs": fs, "late": late, "ticks": ticks}


SCENARIOS = [Scenario("late", run, programs, quick=4000, thorough=250000)]

"""C08: a frame records its first, highest, lowest and last tick and then freezes."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.frames import Tracked, extremes, values_of
from vlib.harness import Scenario
from vlib.periods import Excluded
from vlib.world import read_frame_set

PROPERTY = "C08"
RULE = (
    "A case is a zone, one to three frame sets of any unit with history limits and "
    "indicators, and a stream with many equal prices (ties), monotone runs, zero and "
    "negative prices. After each tick every kept frame is compared with the ticks which fell "
    "into it, links are checked both ways, and everything readable on the frames already "
    "closed (indicator values included) is compared with what it was when they closed. "
    "Non-trivial: at least two closed frames, one with three ticks or more."
)
ASSUMPTIONS = [
    "the predecessor link of the oldest kept frame goes when the predecessor is dropped; "
    "previous values reached through dropped frames (pivot levels, indicator.previous) of "
    "the oldest kept frame are outside the statement",
]


def run(case, ctx):
    zone = case["zone"]
    epic = sut.epic(zone, case.get("cal"))
    vals = values_of(case)
    tracked = []
    for k, s in enumerate(case["fs"]):
        tr = Tracked(dict(s, ref=f"f{k}"), zone)
        for spec in s["ind"]:
            tr.fs.add_indicator(sut.indicator(spec))
        epic.add_frame_set(tr.fs)
        tr.frozen = {}  # model index of the frame -> (object, what it showed when closed)
        tracked.append(tr)
    big = False
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        try:
            for tr in tracked:
                tr.model.add(i, us)
        except Excluded as e:
            ctx.exclude(str(e))
            return
        epic.on_new_tick(sut.tick(i, us, bid, ask))
        for tr in tracked:
            kept = tr.kept()
            base = len(tr.model.frames) - len(kept)
            objs = list(tr.fs.frames)
            ctx.check(len(objs) == len(kept), "%s after tick %d: %d frames, expected %d",
                      tr.name, i, len(objs), len(kept))
            shown = read_frame_set(tr.fs, tr.spec["ind"])
            for n, (m, o) in enumerate(zip(kept, shown)):
                what = f"{tr.name} after tick {i}, frame {n} of {len(kept)}"
                ids = tr.ids(m)
                hi, lo = extremes(ids, vals)
                if m["ticks"]:
                    ctx.check(o["nb"] == len(ids), "%s: nb_ticks %s, expected %d", what,
                              o["nb"], len(ids))
                ctx.check((o["first"], o["last"]) == (ids[0], ids[-1]),
                          "%s: first and last tick %s %s, expected %s %s", what, o["first"],
                          o["last"], ids[0], ids[-1])
                ctx.check((o["high"], o["low"]) == (hi, lo),
                          "%s: high and low tick %s %s, expected %s %s (values %s)", what,
                          o["high"], o["low"], hi, lo, [vals[x] for x in ids])
                newest = n == len(kept) - 1
                ctx.check(o["closed"] is (not newest), "%s: closed is %s", what, o["closed"])
                ctx.check(o["prev"] == (n - 1 if n else None), "%s: predecessor is %s", what,
                          o["prev"])
                ctx.check(o["next"] == (None if newest else n + 1), "%s: successor is %s",
                          what, o["next"])
                if not newest:
                    big |= len(ids) >= 3
                    now = freeze(o, oldest=n == 0)
                    key = base + n
                    if key in tr.frozen:
                        obj, then = tr.frozen[key]
                        ctx.check(obj is objs[n], "%s: closed frame replaced", what)
                        a, b = (strip(then), strip(now)) if n == 0 else (then, now)
                        d = world.diff(a, b)
                        ctx.check(d is None, "%s: closed frame changed %s", what, d)
                    else:
                        tr.frozen[key] = (objs[n], now)
            tr.frozen = {k: v for k, v in tr.frozen.items() if k >= base}
    closed = max(len(tr.model.frames) - 1 for tr in tracked)
    ctx.nontrivial = closed >= 2 and big
    if any(len(tr.model.frames) > tr.n for tr in tracked):
        ctx.label("frames dropped")


def freeze(o, oldest):
    d = dict(o)
    d.pop("prev")
    d.pop("next")
    return d


def strip(o):
    """Without what depends on the dropped predecessor."""
    d = dict(o)
    d["ind"] = {k: (None if v is None else
                    {a: b for a, b in v.items()
                     if not a.startswith(("pivot", "support", "resistance"))})
                for k, v in o["ind"].items()}
    return d


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    fs = draw(world.graphs(limits=(5, 1, 3, 2, 12, None), max_sets=2))
    ticks = draw(world.stream(zone, fs, sizes=(1, 6, 14, 22), max_size=30,
                              smooth=draw(gen.ints(0, 3)) > 0))
    return {"zone": zone, "fs": fs, "ticks": ticks}


@st.composite
def dense(draw):
    """Few frames with many ticks, prices drawn from a small set."""
    zone = "UTC"
    q = draw(gen.pick([3, 5, 8, 13]))
    n = draw(gen.pick([2, 4, 50]))
    fs = [{"unit": "TICK", "q": q, "n": n,
           "ind": draw(world.indicator_specs(q, n, ["candle", "ha", "sma", "rsi"]))},
          {"unit": "MINUTE", "q": 1, "n": draw(gen.pick([2, 4, 50])), "ind": []}]
    n = draw(gen.ints(4, 45))
    mode = draw(gen.price_mode(["tiny", "zero", "cents", "fx"]))
    base = draw(gen.pick([1577836800, 1583020800])) * tzm.SEC
    out, t = [], base
    for p, s, dt in draw(st.lists(st.tuples(gen.ints(-4, 4), gen.ints(0, 3), gen.ints(0, 15)),
                                  min_size=n, max_size=n)):
        t += dt * tzm.SEC
        out.append([t] + gen.price(mode, p, s))
    return {"zone": zone, "fs": fs, "ticks": out}


SCENARIOS = [
    Scenario("frames", run, programs, quick=3500, thorough=250000),
    Scenario("dense", run, dense, quick=5000, thorough=350000),
    Scenario("long", world.lengthen(run), lambda: world.long(programs()),
             quick=120, thorough=6000),
]

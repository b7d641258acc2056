"""C10: classic candles report the open, high, low, last and shape of their frame."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, world
from vlib.harness import Scenario
from vlib.nums import F, close, is_cents
from vlib.watch import drive, specs_late

PROPERTY = "C10"
RULE = (
    "A case is a zone, one or two frame sets of any unit and history limit with classic "
    "candles (some registered during the history) and a stream at any price level: zero, "
    "negative, few cents wide, five decimals. After each tick the candles of the kept frames "
    "are compared with the ticks their frame received. Non-trivial: a candle of three ticks "
    "or more with head or tail, and a closed one."
)
ASSUMPTIONS = ["on the frame in progress when a candle set is added, open, high and low are "
               "not decided (the candle only knows the later ticks)"]


def run(case, ctx):
    state = {"shape": False, "closed": False}

    def verify(w, r, i):
        for s in w.inds:
            ref = s["ref"]
            what = f"{w.name} after tick {i}, frame {r['k']}, candle {ref}"
            v = w.value(r, ref)
            first = w.first_seen(ref)
            if first is None or r["k"] < first:
                ctx.check(v is None, "%s: value on a frame before the candle was added", what)
                continue
            ctx.check(v is not None, "%s: no value", what)
            c = ob.candle(v)
            o, h, lo, last = w.ohlc(r)
            if w.partial(ref, r):
                ctx.label("frame in progress when added")
                # what it shows must at least be consistent
                o, h, lo = c["open"], c["high"], c["low"]
                ctx.check(lo <= min(o, c["last"]) and h >= max(o, c["last"]),
                          "%s: inconsistent %s", what, c)
            for name, exp in (("open", o), ("high", h), ("low", lo), ("last", last)):
                ctx.check(close(c[name], exp), "%s: %s is %s, expected %s", what, name,
                          c[name], float(exp))
            closed = r is not w.recs[-1]
            if closed:
                state["closed"] = True
                ctx.check(c["close"] is not None and close(c["close"], last),
                          "%s: close is %s, expected %s", what, c["close"], float(last))
            else:
                ctx.check(c["close"] is None, "%s: close is %s on the current frame", what,
                          c["close"])
            color = "GREEN" if last > o else "RED" if last < o else "BLACK"
            ctx.check(c["color"] == color, "%s: color %s, expected %s", what, c["color"],
                      color)
            o, h, lo, last = F(o), F(h), F(lo), F(last)
            for name, exp in (("height", h - lo), ("body", abs(last - o)),
                              ("head", h - max(o, last)), ("tail", min(o, last) - lo)):
                ctx.check(close(c[name], exp) and (name == "height" or is_cents(c[name])),
                          "%s: %s is %s, expected %s (%s)", what, name, c[name], float(exp), c)
            if len(r["ids"]) >= 3 and (c["head"] > 0 or c["tail"] > 0):
                state["shape"] = True

    drive(case, ctx, verify)
    ctx.nontrivial = state["shape"] and state["closed"]


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    fs = draw(world.graphs(types=["candle"], limits=(None, 2, 1, 4, 30), max_sets=2))
    for f in fs:
        f["ind"] = specs_late(draw, f["ind"][:2], 10)
    ticks = draw(world.stream(zone, fs, sizes=(1, 6, 15, 25), max_size=35,
                              smooth=draw(gen.ints(0, 4)) > 0))
    return {"zone": zone, "fs": fs, "ticks": ticks,
            "read": draw(gen.pick(["all", "all", "all", "end"]))}


SCENARIOS = [
    Scenario("candles", run, programs, quick=9000, thorough=600000),
    Scenario("long", world.lengthen(run), lambda: world.long(programs()),
             quick=120, thorough=8000),
]

"""C11: Heikin Ashi candles follow their recurrence over the whole history."""
from fractions import Fraction

from hypothesis import strategies as st

from vlib import gen, observe as ob, tzmodel as tzm, world
from vlib.harness import Scenario
from vlib.nums import F, close, near
from vlib.watch import drive, specs_late

PROPERTY = "C11"
RULE = (
    "'steps': frame sets of any unit with a limit from two frames up and Heikin Ashi candles "
    "(some added during the history), any price level; the candles of all kept frames are "
    "read after each tick, or only at the end, and compared with the recurrence applied to "
    "the previous candle as it was shown, closed candles also with what they showed before. "
    "'long': histories of 300 to 2500 frames, all kept or few kept, read at the end only, "
    "newest candle first, compared with the recurrence computed exactly from the first frame. "
    "Non-trivial: four candles or more in the chain, one with three ticks."
)
ASSUMPTIONS = ["on the frame in progress when a candle set is added the open value is not "
               "decided"]
HALF = Fraction(1, 2)
QUARTER = Fraction(1, 4)


def run(case, ctx):
    state = {"big": False, "max": 0}

    def verify(w, r, i):
        for s in w.inds:
            ref = s["ref"]
            what = f"{w.name} after tick {i}, frame {r['k']}, candle {ref}"
            v = w.value(r, ref)
            first = w.first_seen(ref)
            if first is None or r["k"] < first:
                ctx.check(v is None, "%s: value before the candle set was added", what)
                continue
            ctx.check(v is not None, "%s: no value", what)
            c = ob.candle(v)
            closed = r is not w.recs[-1]
            seen = r["seen"].get(ref)
            o, h, lo, last = (F(c[x]) for x in ("open", "high", "low", "last"))
            ctx.check(c["color"] == ("GREEN" if last > o else "RED" if last < o else "BLACK"),
                      "%s: color %s, open %s, last %s", what, c["color"], c["open"], c["last"])
            for name, exp in (("height", h - lo), ("body", abs(last - o)),
                              ("head", h - max(o, last)), ("tail", min(o, last) - lo)):
                ctx.check(close(c[name], exp), "%s: %s is %s, expected %s (%s)", what, name,
                          c[name], float(exp), c)
            ctx.check(c["close"] == (c["last"] if closed else None),
                      "%s: close is %s, last is %s, frame %s", what, c["close"], c["last"],
                      "closed" if closed else "open")
            if seen is not None and seen["closed"]:
                ctx.check(c == seen["c"], "%s: closed candle changed from %s to %s", what,
                          seen["c"], c)
                continue
            r["seen"][ref] = {"closed": closed, "c": c}
            o, h, lo, last = w.ohlc(r)
            if not w.partial(ref, r):
                exp = (o + h + lo + last) * QUARTER
                ctx.check(near(c["last"], exp), "%s: last is %s, expected %s", what,
                          c["last"], float(exp))
                for name, e in (("high", max(h, F(c["open"]), F(c["last"]))),
                                ("low", min(lo, F(c["open"]), F(c["last"])))):
                    ctx.check(close(c[name], e), "%s: %s is %s, expected %s", what, name,
                              c[name], float(e))
                if r["k"] == first and not r["lost"]:
                    ctx.check(close(c["open"], o), "%s: open of the first candle is %s, "
                              "first value %s", what, c["open"], float(o))
            if r["k"] > first and not r["lost"]:
                before = w.recs[r["k"] - 1]
                prev = before["seen"].get(ref)
                if prev is not None and prev["closed"]:
                    exp = (F(prev["c"]["open"]) + F(prev["c"]["last"])) * HALF
                    ctx.check(near(c["open"], exp), "%s: open is %s, expected %s from the "
                              "previous candle", what, c["open"], float(exp))
            ref_c = chain(w, r, ref, first)
            if ref_c is not None:
                ctx.check(near(c["open"], ref_c, 0.0151), "%s: open is %s, the recurrence from "
                          "the first candle gives %s", what, c["open"], float(ref_c))
            state["big"] |= len(r["ids"]) >= 3
            state["max"] = max(state["max"], r["k"] - first + 1)

    # a frame which closes is read once more by `full` reads only: read them all
    drive(case, ctx, verify)
    ctx.nontrivial = state["max"] >= 4 and state["big"]


def chain(w, r, ref, first):
    """Open value by the exact recurrence from the first candle (None: unknown)."""
    cache = w.__dict__.setdefault("chain", {}).setdefault(ref, {})
    k = r["k"]
    if k in cache:
        return cache[k]
    at = k
    while at > first and at not in cache:
        at -= 1
    for n in range(at, k + 1):
        if n in cache:
            continue
        x = w.recs[n]
        if x["lost"]:
            cache[n] = None
        elif n == first:
            cache[n] = None if w.partial(ref, x) else w.exact[w.shown(x)[0]]
        elif cache[n - 1] is None or w.partial(ref, w.recs[n - 1]):
            cache[n] = None
        else:
            o, h, lo, last = w.ohlc(w.recs[n - 1])
            x2 = (cache[n - 1] + (o + h + lo + last) * QUARTER) * HALF
            # keep the fractions small
            cache[n] = Fraction(round(x2 * 10**9), 10**9)
    return cache[k]


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    fs = draw(world.graphs(types=["ha"], limits=(2, 1, 3, 5, 12, None), max_sets=2))
    for f in fs:
        f["ind"] = specs_late(draw, f["ind"][:2], 10)
    ticks = draw(world.stream(zone, fs, sizes=(1, 6, 15, 30), max_size=45,
                              smooth=draw(gen.ints(0, 4)) > 0))
    return {"zone": zone, "fs": fs, "ticks": ticks,
            "read": draw(gen.pick(["all", "all", "end"]))}


def run_long(case, ctx):
    """Prices from a small generator: the case stays short."""
    x = case["seed"]
    t = case["start"]
    ticks = []
    level = case["base"]
    for _ in range(case["count"]):
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        level += ((x >> 40) % (2 * case["swing"] + 1)) - case["swing"]
        spread = (x >> 20) % 4
        t += ((x >> 50) % 3 + 1) * case["step"]
        ticks.append([t, level / 100, (level + spread) / 100])
    full = dict(case, ticks=ticks, fs=[dict(case["f"], ind=[{"type": "ha", "ref": "h"}])],
                zone="UTC", read="end")

    def noop(w, r, i):
        pass

    epic, (w,) = drive(full, ctx, noop)
    order = w.kept()
    if case["newest_first"]:
        order = order[::-1]
    got = {}
    for r in order:
        got[r["k"]] = ob.candle(w.value(r, "h"))
    for r in w.kept():
        c = got[r["k"]]
        what = f"{w.name}, frame {r['k']} of {len(w.recs)}"
        o, h, lo, last = w.ohlc(r)
        ctx.check(near(c["last"], (o + h + lo + last) * QUARTER), "%s: last %s", what,
                  c["last"])
        exp = chain(w, r, "h", 0)
        if exp is not None:
            ctx.check(near(c["open"], exp, 0.0151), "%s: open is %s, the recurrence gives %s",
                      what, c["open"], float(exp))
        p = got.get(r["k"] - 1)
        if p is not None and not r["lost"]:
            ctx.check(near(c["open"], (F(p["open"]) + F(p["last"])) * HALF),
                      "%s: open is %s, previous candle %s", what, c["open"], p)
        ctx.check(close(c["high"], max(h, F(c["open"]), F(c["last"])))
                  and close(c["low"], min(lo, F(c["open"]), F(c["last"]))),
                  "%s: high and low %s", what, c)
    ctx.nontrivial = len(w.recs) >= 200
    if len(order) >= 1000:
        ctx.label("1000 candles kept or more")


@st.composite
def longs(draw):
    f = draw(gen.pick([{"unit": "TICK", "q": 1}, {"unit": "SECOND", "q": 1},
                       {"unit": "TICK", "q": 2}, {"unit": "MINUTE", "q": 1},
                       {"unit": "SECOND", "q": 5}]))
    f["n"] = draw(gen.pick([5000, 2, 10, 1200, 100]))
    per = {"SECOND": tzm.SEC, "MINUTE": 30 * tzm.SEC, "TICK": tzm.SEC}[f["unit"]] * f["q"]
    return {"f": f, "start": 1577923200 * tzm.SEC, "step": per // draw(gen.pick([1, 3])),
            "count": draw(gen.ints(300, 2500)), "seed": draw(gen.ints(0, 2**32)),
            "base": draw(gen.pick([10000, 0, -40000, 12345678])),
            "swing": draw(gen.pick([1, 7, 300])), "newest_first": draw(st.booleans())}


SCENARIOS = [
    Scenario("steps", run, programs, quick=6000, thorough=400000),
    Scenario("long", run_long, longs, quick=200, thorough=8000),
]

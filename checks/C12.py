"""C12: a simple moving average is the mean of exactly the last closes."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, world
from vlib.harness import Scenario
from vlib.nums import near
from vlib.watch import drive, specs_late

PROPERTY = "C12"
RULE = (
    "A case is a zone, one or two frame sets (any unit, history limits also below the number "
    "of periods), one or two averages with a maximum of 1 to 15 periods, possibly added "
    "during the history, and a stream with gaps. After each tick the averages for every n "
    "around the maximum are compared, on the kept frames, with the exact mean of the last "
    "values of the n last frames. Non-trivial: an average over two frames or more existed "
    "with the window full and moved within its frame."
)
ASSUMPTIONS = ["a frame on which no tick was received since the average was added is not one "
               "of the frames seen"]


def run(case, ctx):
    state = {"full": False, "moved": False}

    def verify(w, r, i):
        for s in w.inds:
            ref, top = s["ref"], s["n"]
            what = f"{w.name} after tick {i}, frame {r['k']}, average {ref} of {top} at most"
            v = w.value(r, ref)
            first = w.first_seen(ref)
            if first is None or r["k"] < first:
                ctx.check(v is None, "%s: value before it was added", what)
                continue
            ctx.check(v is not None, "%s: no value", what)
            have = r["k"] - first + 1
            lost = w.lost_since(r["k"], r["k"] - first + 1)
            for n in sorted({1, 2, 3, 5, max(1, top - 1), top, top + 1, top + 7}):
                got = ob.sma(v, [n])[str(n)]
                if n > top or (n > have and not lost):
                    ctx.check(got is None, "%s: value %s over %d periods after %d frames",
                              what, got, n, have)
                    continue
                if n > 1 and w.lost_since(r["k"], n - 1):
                    ctx.label("window through unseen frames")
                    continue
                if n > have:
                    continue
                ctx.check(got is not None, "%s: no value over %d periods after %d frames",
                          what, n, have)
                closes = [w.exact[w.shown(x)[-1]] for x in w.recs[r["k"] - n + 1:r["k"] + 1]]
                exp = sum(closes) / n
                ctx.check(near(got, exp), "%s: %s over %d periods, expected %s (closes %s)",
                          what, got, n, float(exp), [float(c) for c in closes])
                if n >= 2 and n == top:
                    state["full"] = True
                    if have > n:
                        ctx.label("window moved on")
                        state["moved"] |= len(r["ids"]) > 1
                    if n > (w.spec.get("n") or 100):
                        ctx.label("window longer than the kept history")

    drive(case, ctx, verify)
    ctx.nontrivial = state["full"] and state["moved"]


@st.composite
def programs(draw, long=False):
    zone = draw(gen.zones())
    fs = draw(world.graphs(types=["candle"], limits=(None, 2, 1, 3, 8, 30), max_sets=2))
    for f in fs:
        f["ind"] = []
        for k in range(draw(gen.ints(1, 2))):
            f["ind"].append({"type": "sma", "ref": f"s{k}",
                             "n": draw(gen.pick([20, 50, 100, 200, 37] if long
                                               else [2, 3, 1, 4, 5, 8, 15]))})
        specs_late(draw, f["ind"], 10)
    ticks = draw(world.stream(zone, fs, sizes=(1, 8, 18, 30), max_size=45,
                              smooth=draw(gen.ints(0, 4)) > 0))
    return {"zone": zone, "fs": fs, "ticks": ticks,
            "read": draw(gen.pick(["all", "all", "all", "end"]))}


SCENARIOS = [
    Scenario("averages", run, programs, quick=6000, thorough=400000),
    Scenario("long", world.lengthen(run),
             lambda: world.long(programs(True), counts=(120, 60, 400), paces=(1, 1, 3, 40)),
             quick=250, thorough=8000),
]

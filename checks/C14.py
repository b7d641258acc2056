"""C14: pivot levels derive from the previous kept frame by the documented formulas."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, world
from vlib.harness import Scenario
from vlib.nums import F, near
from vlib.watch import drive, specs_late

PROPERTY = "C14"
RULE = (
    "A case is a zone, one or two frame sets of any unit with classic and OLHC pivots "
    "(sometimes added during the history) and a stream at any price level (zero, negative, "
    "a few cents wide, five decimals). After each tick all seven levels of the kept frames "
    "are compared with the formulas on the previous frame, with what they were when the "
    "frame began, and with their ordering. Non-trivial: a previous frame with three distinct "
    "values, and a current frame with several ticks."
)
ASSUMPTIONS = [
    "supports and resistances may be computed from the pivot rounded or not",
    "levels of the oldest kept frame are decided only when nothing precedes it",
    "levels after a frame in progress when the pivot was added are not decided",
]


def run(case, ctx):
    state = {"rich": False, "grew": False}

    def verify(w, r, i):
        for s in w.inds:
            ref = s["ref"]
            what = f"{w.name} after tick {i}, frame {r['k']}, {s['type']} {ref}"
            v = w.value(r, ref)
            first = w.first_seen(ref)
            if first is None or r["k"] < first:
                ctx.check(v is None, "%s: value before it was added", what)
                continue
            ctx.check(v is not None, "%s: no value", what)
            got = ob.pivot(v)
            if r["k"] == first and not r["lost"]:
                ctx.check(all(x is None for x in got.values()),
                          "%s: levels without an earlier frame: %s", what, got)
                continue
            if r is w.kept()[0] or r["lost"]:
                continue
            p = w.recs[r["k"] - 1]
            if w.partial(ref, p):
                ctx.label("after the frame in progress when added")
                continue
            ctx.check(all(x is not None for x in got.values()), "%s: missing levels %s", what,
                      got)
            seen = r["seen"].setdefault(ref, got)
            ctx.check(seen == got, "%s: levels moved from %s to %s", what, seen, got)
            _, h, lo, c = w.ohlc(p)
            if s["type"] == "pivot":
                exact = (h + lo + c) / 3
            else:
                if w.partial(ref, r):
                    continue
                exact = (h + lo + c + w.ohlc(r)[0]) / 4
            ctx.check(near(got["pivot"], exact), "%s: pivot %s, expected %s (H %s L %s C %s)",
                      what, got["pivot"], float(exact), float(h), float(lo), float(c))
            shown = F(got["pivot"])
            for name, f in (
                ("support1", lambda x: 2 * x - h), ("support2", lambda x: x - (h - lo)),
                ("support3", lambda x: lo - 2 * (h - x)),
                ("resistance1", lambda x: 2 * x - lo),
                ("resistance2", lambda x: x + (h - lo)),
                ("resistance3", lambda x: h + 2 * (x - lo)),
            ):
                ctx.check(near(got[name], f(shown)) or near(got[name], f(exact)),
                          "%s: %s is %s, expected %s (P %s H %s L %s C %s)", what, name,
                          got[name], float(f(shown)), got["pivot"], float(h), float(lo),
                          float(c))
            e = 1e-6
            ctx.check(got["support2"] <= got["pivot"] + e
                      and got["pivot"] <= got["resistance2"] + e, "%s: not ordered %s", what,
                      got)
            if lo <= exact <= h:
                ctx.check(got["support1"] <= got["pivot"] + e
                          and got["pivot"] <= got["resistance1"] + e, "%s: not ordered %s",
                          what, got)
                ctx.label("pivot within the previous range")
            state["rich"] |= len({h, lo, c}) == 3
            state["grew"] |= len(r["ids"]) > 2

    drive(case, ctx, verify)
    ctx.nontrivial = state["rich"] and state["grew"]


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    fs = draw(world.graphs(types=["pivot", "olhc"], limits=(None, 2, 1, 3, 8, 30), max_sets=2))
    for f in fs:
        f["ind"] = specs_late(draw, f["ind"][:2], 10)
    ticks = draw(world.stream(zone, fs, sizes=(1, 8, 18, 30), max_size=40,
                              smooth=draw(gen.ints(0, 4)) > 0))
    return {"zone": zone, "fs": fs, "ticks": ticks,
            "read": draw(gen.pick(["all", "all", "all", "end"]))}


SCENARIOS = [
    Scenario("levels", run, programs, quick=7000, thorough=450000),
    Scenario("long", world.lengthen(run), lambda: world.long(programs()),
             quick=120, thorough=8000),
]

"""C13: RSI equals the gain/loss ratio over exactly its window of frame changes."""
from fractions import Fraction

from hypothesis import strategies as st

from estrade.exceptions import BaseIndicatorException
from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.harness import Scenario
from vlib.nums import near
from vlib.watch import Watch, drive, specs_late

PROPERTY = "C13"
RULE = (
    "'values': frame sets with quantities 1 to 20, RSI of 1 to 14 periods (added first or "
    "during the history), limits equal to the window or above, flat stretches, gaps; after "
    "each tick the RSI of the kept frames is compared with the exact figure over the last "
    "changes. 'refusal': adding windows around the history limit, with an earlier indicator "
    "under the same reference or not, then a few ticks. Non-trivial: a full window holding "
    "both gains and losses (values); a refused indicator (refusal)."
)
ASSUMPTIONS = ["for an RSI added during a history, a value is allowed from the moment the "
               "frame set holds a full window and required once a full window of frames has "
               "begun since"]


def expected(changes):
    gains = sum(c for c in changes if c > 0)
    losses = -sum(c for c in changes if c < 0)
    if losses == 0:
        return Fraction(100)
    return 100 - 100 / (1 + gains / losses)


def run(case, ctx):
    state = {"full": False}

    def verify(w, r, i):
        for s in w.inds:
            ref = s["ref"]
            width = s["n"] * w.spec["q"]
            what = f"{w.name} after tick {i}, frame {r['k']}, RSI {s['n']} ({width} frames)"
            v = w.value(r, ref)
            first = w.first_seen(ref)
            k = r["k"]
            if first is None or k < first:
                ctx.check(v is None, "%s: value before it was added", what)
                continue
            ctx.check(v is not None, "%s: no value", what)
            got = ob.rsi(v)["value"]
            if w.lost_since(k, k + 1):
                lost = True
            else:
                lost = False
            seen = r["seen"].get(ref)
            closed = r is not w.recs[-1]
            if seen is not None and seen[0]:
                ctx.check(got == seen[1], "%s: closed value changed from %s to %s", what,
                          seen[1], got)
            r["seen"][ref] = (closed, got)
            if lost and w.lost_since(k, width):
                ctx.label("window through unseen frames")
                if got is not None:
                    ctx.check(0 <= got <= 100, "%s: %s", what, got)
                continue
            # changes since it was added; with a single frame kept, the frame before the one
            # it was added on is gone
            begun = k - first + (1 if first > 0 and w.spec.get("n") != 1 else 0)
            if k < width and not lost:
                ctx.check(got is None, "%s: %s with %d changes only", what, got, k)
                continue
            if begun < width and not lost:
                if got is None:
                    ctx.label("late, not full")
                    continue
            elif lost and got is None and begun < width:
                continue
            ctx.check(got is not None, "%s: no value with %d changes", what, begun)
            closes = [w.exact[w.shown(x)[-1]] for x in w.recs[k - width:k + 1]]
            changes = [b - a for a, b in zip(closes, closes[1:])]
            exp = expected(changes)
            ctx.check(0 <= got <= 100, "%s: %s", what, got)
            ctx.check(near(got, exp), "%s: %s, expected %s (changes %s)", what, got,
                      float(exp), [float(c) for c in changes])
            if any(c > 0 for c in changes) and any(c < 0 for c in changes):
                state["full"] = True
            elif not any(changes):
                ctx.label("flat window")
            elif not any(c < 0 for c in changes):
                ctx.label("gains only")
            else:
                ctx.label("losses only")

    drive(case, ctx, verify)
    ctx.nontrivial = state["full"]


@st.composite
def programs(draw, long=False):
    zone = draw(gen.zones())
    fs = []
    for _ in range(draw(gen.ints(1, 2))):
        u, q = draw(gen.timeframe())
        small = draw(gen.ints(0, 4))
        if small and q > 7:
            q = 1
        if small > 1 and u not in ("YEAR", "WEEK"):
            q = draw(gen.pick([1, 2, 3])) if u != "DAY" else 1
        n = draw(gen.pick([1, 2, 3, 1, 4, 7, 14]))
        while n > 1 and n * q > 24:
            n -= 1
        if long:
            n = max(1, draw(gen.pick([14, 50, 100, 150, 21, 75])) // q)
        width = n * q
        limit = draw(gen.pick([None, width, width, width + 1, width + 3,
                               max(100, width)]))
        if limit is None and width > 100:
            limit = width
        if limit is not None:
            limit = max(1, limit)
        fs.append({"unit": u, "q": q, "n": limit,
                   "ind": specs_late(draw, [{"type": "rsi", "ref": "r", "n": n}], 10)})
    smooth = draw(gen.ints(0, 5)) > 0
    ticks = draw(world.stream(zone, fs, modes=["tiny", "cents", "wide", "zero", "fx"],
                              sizes=(2, 12, 24, 40), max_size=50, smooth=smooth))
    return {"zone": zone, "fs": fs, "ticks": ticks,
            "read": draw(gen.pick(["all", "all", "all", "end"]))}


def run_refusal(case, ctx):
    s = case["f"]
    zone = "UTC"
    case = dict(case, ticks=[[(1577923200 + 60 * k * 90) * tzm.SEC, 5.0 + k % 3, 5.0 + k % 3]
                             for k in range(case["nticks"])])
    fs = sut.frame_set(s["unit"], s["q"], s["n"], "f")
    epic = sut.epic(zone)
    epic.add_frame_set(fs)
    if case["earlier"]:
        fs.add_indicator(sut.indicator({"type": "candle", "ref": "x"}))
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        if i == case["at"]:
            add(case, s, fs, ctx)
        epic.on_new_tick(sut.tick(i, us, bid, ask))
    width = case["periods"] * s["q"]
    limit = s["n"] or 100
    refused = width > limit
    ctx.nontrivial = refused
    if refused:
        for f in fs.frames:
            v = f["x"]
            if case["earlier"]:
                ctx.check(v is not None and ob.candle(v)["open"] is not None,
                          "the earlier indicator lost its value")
            else:
                ctx.check(v is None, "a refused RSI has values")
        v = epic.get_indicator_value("f", "x")
        ctx.check((v is not None) == case["earlier"], "value of %r: %s", "x", v)
    else:
        ob.rsi(fs.current["x"])


def add(case, s, fs, ctx):
    width = case["periods"] * s["q"]
    limit = s["n"] or 100
    what = f"RSI of {case['periods']} periods on {s} (window {width}, limit {limit})"
    before = dict(fs.indicators)
    try:
        fs.add_indicator(sut.indicator({"type": "rsi", "ref": "x", "n": case["periods"]}))
        ok = True
    except BaseIndicatorException:
        ok = False
    ctx.check(ok == (width <= limit), "%s: %s", what, "accepted" if ok else "refused")
    if not ok:
        ctx.check(dict(fs.indicators) == before, "%s: refused but registered", what)


@st.composite
def refusals(draw):
    u, q = draw(gen.timeframe())
    limit = draw(gen.pick([None, 2, 5, 1, 14, 100, 30]))
    base = (limit or 100) // q
    p = max(1, base + draw(gen.pick([1, 0, -1, 2, 10])))
    n = draw(gen.ints(1, 6))
    return {"f": {"unit": u, "q": q, "n": limit}, "periods": p, "nticks": n,
            "at": draw(gen.ints(0, n - 1)),
            "earlier": (not (p * q <= (limit or 100))) and draw(st.booleans())}


SCENARIOS = [
    Scenario("values", run, programs, quick=7000, thorough=450000),
    Scenario("refusal", run_refusal, refusals, quick=1200, thorough=30000),
    Scenario("long", world.lengthen(run),
             lambda: world.long(programs(True), counts=(120, 60, 300), paces=(1, 1, 3, 40)),
             quick=250, thorough=8000),
]

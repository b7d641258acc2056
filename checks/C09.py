"""C09: a bounded frame history keeps the newest frames and changes no value."""
from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, world
from vlib.harness import Scenario
from vlib.world import read_indicator

PROPERTY = "C09"
RULE = (
    "A case is a zone, a frame set of any unit with candles, Heikin Ashi candles, averages, "
    "RSI and pivots (some added during the history), kept with a limit of 2 to 100 frames and, "
    "next to it on the same epic, with a limit that is never reached; the stream drops frames "
    "one at a time and many in one gap, and the limit may be changed meanwhile. After each tick the bounded history is compared with "
    "the end of the other and looked up at every distance around the limit. Non-trivial: "
    "frames were dropped, and several ticks fell into a later frame."
)
ASSUMPTIONS = [
    "levels of the oldest kept pivot go with its predecessor",
    "an RSI added on a frame whose predecessor was dropped has nothing to compare it with",
    "indicators restricted to market hours take their previous value among kept frames "
    "(C15): only restricted candles are compared here",
]
HUGE = 10**6


def contents(f, spec_list, oldest):
    d = ob.frame(f)
    d["ind"] = {}
    for s in spec_list:
        if s["type"] in ("pivot", "olhc") and oldest:
            continue
        d["ind"][s["ref"]] = read_indicator(s, f[s["ref"]])
    return d


def run(case, ctx):
    s = case["f"]
    limit = s["n"] or 100
    kept = seen = 0
    epic = sut.epic(case["zone"], case.get("cal"))
    small = sut.frame_set(s["unit"], s["q"], s["n"], "small")
    big = sut.frame_set(s["unit"], s["q"], HUGE, "big")
    epic.add_frame_set(small)
    epic.add_frame_set(big)
    refs = []
    dropped = grew = False
    last = len(case["ticks"]) - 1
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        for spec in s["ind"]:
            if spec.get("late", 0) == i:
                small.add_indicator(sut.indicator(spec))
                big.add_indicator(sut.indicator(spec))
                refs.append(spec)
        for at, new in case.get("relimit", ()):
            if at == i:
                small.max_frames_in_memory = limit = new
        epic.on_new_tick(sut.tick(i, us, bid, ask))
        new, seen = len(big.frames) - seen, len(big.frames)
        # a limit changed meanwhile is applied when frames are created, at the latest
        before, kept = kept, (min(limit, kept + new) if new else kept)
        if not new and before > limit and len(small.frames) == limit:
            kept = limit
        if case["read"] == "end" and i < last:
            continue
        a, b = list(small.frames), list(big.frames)
        what = f"{s['q']} {s['unit']}, limit {limit}, after tick {i}"
        n = kept
        ctx.check(len(a) == n, "%s: %d frames kept of %d", what, len(a), len(b))
        offset = len(b) - n
        full = i == last or i % 4 == 3
        for k in (range(n) if full else sorted({0, *range(max(0, n - 3), n)})):
            da = contents(a[k], refs, k == 0)
            db = contents(b[offset + k], refs, k == 0)
            d = world.diff(da, db)
            ctx.check(d is None, "%s: frame %d of %d differs from the larger history: %s",
                      what, k, n, d)
            exp_prev = a[k - 1] if k else None
            exp_next = a[k + 1] if k + 1 < n else None
            ctx.check(a[k].previous_frame is exp_prev, "%s: predecessor of frame %d of %d",
                      what, k, n)
            ctx.check(a[k].next_frame is exp_next, "%s: successor of frame %d of %d", what,
                      k, n)
        # look ups
        for dist in sorted({0, 1, 2, case["dist"], n - 2, n - 1, n, n + 1, 2 * n, n + 50}):
            if dist < 0:
                continue
            exp = a[n - 1 - dist] if dist < n else None
            got = epic.get_frame("small", dist)
            ctx.check(got is exp, "%s: frame at distance %d of %d kept is %s", what, dist, n,
                      "another one" if got is not None and exp is not None else got)
            if dist == 0:
                ctx.check(epic.get_frame("small") is exp and small.current is exp
                          and small[-1] is exp, "%s: current frame", what)
            else:
                got = small[-1 - dist]
                ctx.check(got is exp, "%s: frame set at %d", what, -1 - dist)
            for spec in refs:
                ref = spec["ref"]
                got = epic.get_indicator_value("small", ref, dist)
                want = exp[ref] if exp is not None else None
                ctx.check(got is want, "%s: value of %s at distance %d is %s", what, ref,
                          dist, got)
                if dist == 0:
                    ctx.check(epic.get_indicator_value("small", ref) is want,
                              "%s: current value of %s", what, ref)
        if len(b) > n:
            dropped = True
            grew |= a[-1].nb_ticks > 1
    ctx.nontrivial = dropped and grew
    if dropped:
        ctx.label("frames dropped")


@st.composite
def programs(draw, long=False):
    zone = draw(gen.zones())
    u, q = draw(gen.timeframe())
    if q > 6 and draw(st.booleans()):
        q = 1
    n = draw(gen.pick([110, 2, 30, 150, 5, None] if long else [2, 3, 1, 4, 5, 8, 13, None]))
    inds = draw(world.indicator_specs(q, n, world.IND_TYPES + ["ha", "rsi"]))
    for s in inds:
        if s["type"] == "candle" and draw(gen.ints(0, 4)) == 4:
            s["market"] = True
        if draw(gen.ints(0, 7)) == 7 and not (n == 1 and s["type"] == "rsi"):
            s["late"] = draw(gen.ints(1, 12))
    f = {"unit": u, "q": q, "n": n, "ind": inds}
    ticks = draw(world.stream(zone, [f], sizes=(3, 10, 20, 30), max_size=45,
                              smooth=draw(gen.ints(0, 3)) > 0))
    relimit = []
    if draw(gen.ints(0, 4)) == 4:
        low = max([2] + [s["n"] * q for s in inds if s["type"] == "rsi"])
        relimit = [[draw(gen.ints(1, 30)), draw(gen.ints(low, low + 6))] for _ in range(
            draw(gen.ints(1, 2)))]
    return {"zone": zone, "f": f, "ticks": ticks, "dist": draw(gen.ints(0, 30)),
            "relimit": relimit,
            "read": draw(gen.pick(["all", "all", "all", "end"]))}


SCENARIOS = [
    Scenario("limits", run, programs, quick=6000, thorough=400000),
    Scenario("long", world.lengthen(run), lambda: world.long(programs(True), paces=(1, 1, 3, 40)),
             quick=150, thorough=5000),
]

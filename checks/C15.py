"""C15: market-hours-only indicators ignore everything outside market hours."""
from fractions import Fraction

from hypothesis import strategies as st

from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.frames import extremes
from vlib.harness import Scenario
from vlib.nums import F, close, near
from vlib.watch import Watch, drive

PROPERTY = "C15"
RULE = (
    "A case is a calendar, a zone, one or two frame sets of any unit (frames shorter and "
    "longer than the market hours) with restricted candles, Heikin Ashi candles, averages and "
    "pivots next to unrestricted ones, and a stream crossing openings and closings. After "
    "each tick every value on the kept frames is compared with the ticks its frame received "
    "while the market was open (as the epic reported it). Non-trivial: a restricted value on "
    "a frame which also received ticks out of hours, and a frame without any value."
)
ASSUMPTIONS = [
    "empty frames (repeating the last tick) are not decided: whether they carry a restricted "
    "value is taken as observed, also when the repeated tick was received while the market "
    "was closed (recorded as a known finding, counted under excluded)",
    "RSI restricted to market hours follows whole frames (recorded as a known finding)",
    "Heikin Ashi and averages whose previous value was dropped with its frame are not decided",
]
HALF = Fraction(1, 2)


def run(case, ctx):
    strict = case.get("strict")
    state = {"mixed": False, "none": False, "late": False}
    epic = sut.epic(case["zone"], case["cal"], case.get("hols"))
    flags = []
    watches = []
    for k, s in enumerate(case["fs"]):
        w = Watch(case, ctx, s, s["ind"], f"f{k}")
        w.chains = {}
        epic.add_frame_set(w.fs)
        watches.append(w)

    def hours(w, r):
        """Ticks of the frame in market hours; None when it has no value to show."""
        if r["ids"]:
            return [i for i in r["ids"] if flags[i]]
        return [r["carried"]]

    def verify_all(w, i):
        kept = w.kept()
        for s in w.inds:
            ref = s["ref"]
            earlier = None  # nearest earlier kept frame with a value
            for pos, r in enumerate(kept):
                what = (f"{w.name} after tick {i}, frame {r['k']}, "
                        f"{'restricted ' if s.get('market') else ''}{s['type']} {ref}")
                v = w.value(r, ref)
                if not s.get("market"):
                    ids = w.shown(r)
                else:
                    ids = hours(w, r)
                    if not r["ids"]:
                        # an empty frame
                        if v is None:
                            continue
                        if not flags[r["carried"]]:
                            if strict:
                                ctx.fail(f"{what}: value of a tick received while the market "
                                         "was closed, on an empty frame")
                            ctx.exclude("value of a closed-market tick on an empty frame")
                    elif not ids:
                        state["none"] = True
                        ctx.check(v is None, "%s: a value, and no tick in market hours", what)
                        continue
                    elif len(ids) < len(r["ids"]):
                        state["mixed"] = True
                        if not flags[r["ids"][0]]:
                            ctx.label("value created in the middle of a frame")
                ctx.check(v is not None, "%s: no value", what)
                hi, lo = extremes(ids, w.vals)
                g = ob.generic(v)
                exp = {"first": ids[0], "high": hi, "low": lo, "last": ids[-1]}
                ctx.check(g == exp, "%s: ticks %s, expected %s", what, g, exp)
                p = v.previous
                ctx.check(p is (None if earlier is None else earlier[1]),
                          "%s: previous value is not the nearest earlier one kept", what)
                c = chain_link(w, s, r, v, earlier, pos, ids, hi, lo)
                shape(w, s, r, v, c, earlier, ids, hi, lo, what, kept)
                earlier = (r, v, (hi, lo, ids[-1]))

    def chain_link(w, s, r, v, earlier, pos, ids, hi, lo):
        """What is known of the previous value when this one was created."""
        links = w.chains.setdefault(s["ref"], {})
        if r["k"] not in links:
            before = [k for k in links]
            prev = earlier[0]["k"] if earlier else None
            # an earlier value existed but its frame is dropped, or frames are missing
            fuzzy = (prev is None and bool(before)) or any(
                x["lost"] for x in w.recs[(prev if prev is not None else 0):r["k"] + 1])
            links[r["k"]] = {"prev": prev, "fuzzy": fuzzy, "seen": None}
        links[r["k"]]["last"] = w.exact[ids[-1]]
        return links[r["k"]]

    def shape(w, s, r, v, link, earlier, ids, hi, lo, what, kept):
        e = w.exact
        t = s["type"]
        closed = r is not w.recs[-1]
        if t == "candle":
            c = ob.candle(v)
            for name, i in (("open", ids[0]), ("high", hi), ("low", lo), ("last", ids[-1])):
                ctx.check(close(c[name], e[i]), "%s: %s is %s, expected %s", what, name,
                          c[name], float(e[i]))
            ctx.check(c["close"] is None if not closed else
                      c["close"] is not None and close(c["close"], e[ids[-1]]),
                      "%s: close %s", what, c["close"])
        elif t == "ha":
            c = ob.candle(v)
            ctx.check(near(c["last"], (e[ids[0]] + e[hi] + e[lo] + e[ids[-1]]) / 4),
                      "%s: last %s", what, c["last"])
            if not link["fuzzy"]:
                if link["prev"] is None:
                    ctx.check(close(c["open"], e[ids[0]]), "%s: first open %s", what,
                              c["open"])
                else:
                    o = w.chains[s["ref"]][link["prev"]]["seen"]
                    if o is not None:
                        exp = (F(o["open"]) + F(o["last"])) * HALF
                        ctx.check(near(c["open"], exp), "%s: open %s, expected %s", what,
                                  c["open"], float(exp))
            link["seen"] = c
            ctx.check(close(c["high"], max(e[hi], F(c["open"]), F(c["last"])))
                      and close(c["low"], min(e[lo], F(c["open"]), F(c["last"]))),
                      "%s: high and low %s", what, c)
        elif t == "sma":
            n = s["n"]
            closes, x, known = [], link, True
            while x is not None and len(closes) < n:
                closes.append(x["last"])
                if x["fuzzy"] and len(closes) < n:
                    known = False
                    break
                x = None if x["prev"] is None else w.chains[s["ref"]][x["prev"]]
            if known:
                got = ob.sma(v, [n])[str(n)]
                if len(closes) < n:
                    ctx.check(got is None, "%s: %s after %d values", what, got, len(closes))
                else:
                    exp = sum(closes) / n
                    ctx.check(got is not None and near(got, exp), "%s: %s, expected %s", what,
                              got, float(exp))
        elif t in ("pivot", "olhc"):
            got = ob.pivot(v)
            if earlier is None:
                ctx.check(all(x is None for x in got.values()), "%s: levels %s", what, got)
            else:
                h, l, c = (e[x] for x in earlier[2])
                p = (h + l + c) / 3 if t == "pivot" else (h + l + c + e[ids[0]]) / 4
                ctx.check(got["pivot"] is not None and near(got["pivot"], p),
                          "%s: pivot %s, expected %s", what, got["pivot"], float(p))
                s1 = 2 * F(got["pivot"]) - h
                ctx.check(near(got["support1"], s1) or near(got["support1"], 2 * p - h),
                          "%s: support 1 %s", what, got["support1"])
        elif t == "rsi" and strict:
            value = ob.rsi(v)["value"]
            if link["seen"] is not None and link["seen"][1] == ids:
                ctx.check(link["seen"][0] == value, "%s: changed from %s to %s by a tick "
                          "received while the market was closed", what, link["seen"][0],
                          value)
            link["seen"] = (value, list(ids))

    for i, (us, bid, ask) in enumerate(case["ticks"]):
        epic.on_new_tick(sut.tick(i, us, bid, ask))
        flags.append(bool(epic.market_open))
        for w in watches:
            w.after(i)
            verify_all(w, i)
    if any(flags) and not all(flags):
        ctx.label("opened and closed")
    ctx.nontrivial = state["mixed"] and state["none"]


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    units = draw(gen.pick([["TICK"], ["MINUTE", "HOUR"], ["HOUR", "DAY"], ["DAY", "WEEK"],
                           ["TICK", "HOUR"], gen.periods.UNITS]))
    fs = []
    for _ in range(draw(gen.ints(1, 2))):
        u, q = draw(gen.timeframe(units))
        inds = []
        for k, t in enumerate(draw(st.lists(
                gen.pick(["candle", "sma", "ha", "pivot", "olhc", "candle"]),
                min_size=1, max_size=4))):
            s = {"type": t, "ref": f"i{k}", "market": draw(gen.ints(0, 3)) > 0}
            if t == "sma":
                s["n"] = draw(gen.pick([2, 1, 3, 5]))
            inds.append(s)
        fs.append({"unit": u, "q": q, "n": draw(gen.pick([None, 30, 12, 3, 100])),
                   "ind": inds})
    start = draw(gen.anchors(zone, gen.marks_of(cal)))
    kinds = ["mark", "frac", "mark", "unit", "frac", "us", "bnd", "same", "day", "mark"]
    toks = draw(st.lists(st.tuples(gen.pick(kinds), gen.ints(0, 16), gen.ints(0, 2)),
                         min_size=draw(gen.pick([2, 8, 16, 24])), max_size=32))
    times = gen.instants(toks, zone, start, [(s["unit"], s["q"]) for s in fs],
                         pace=draw(gen.pick([3600, 600, 7200])), marks=gen.marks_of(cal),
                         max_gap=draw(gen.pick([8, 40, 90])))
    mode = draw(gen.price_mode())
    prices = draw(gen.price_tokens(len(times)))
    ticks = [[t] + gen.price(mode, p, s) for t, (p, s) in zip(times, prices)]
    hols = []
    if draw(gen.ints(0, 4)) == 4:
        d = tzm.local(times[draw(gen.ints(0, len(times) - 1))], zone).date()
        hols = [[d.year, d.month, d.day]]
    return {"zone": zone, "cal": cal, "hols": hols, "fs": fs, "ticks": ticks}


SCENARIOS = [Scenario("hours", run, programs, quick=6500, thorough=400000)]

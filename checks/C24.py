"""C24: results do not depend on how the same market history is represented."""
import datetime as D

import pytz
from dateutil import tz as dtz
from hypothesis import strategies as st
from zoneinfo import ZoneInfo

from estrade import Tick
from estrade.trade_provider import TradeProviderBacktests

from vlib import gen, observe as ob, periods, sut, tzmodel as tzm, world
from vlib.ambient import ambient
from vlib.harness import Scenario
from vlib.periods import Excluded, FrameModel
from vlib.trading import Plain
from vlib.world import World, diff

PROPERTY = "C24"
RULE = (
    "A case is an epic (zone, calendar, frame sets, indicators), strategies which open and "
    "close trades at chosen notices, and a stream. 'representation': it is run as such and "
    "again with the ticks written in other zones and kinds of datetimes, integers, further "
    "frame sets and idle strategies (before and after), another time zone of the machine, "
    "everything logged, or just again: everything there is to "
    "see must be the same. 'sizes': a frame set next to a finer one dividing it. 'shift': all "
    "prices moved by a number of cents. Non-trivial: trades and several frames with a changed "
    "representation; a coarse frame of two fine ones or more with ticks; a candle with a body "
    "and a trade."
)
ASSUMPTIONS = ["shifted prices have spreads of an even number of cents, so that values shift "
               "exactly"]


# ------------------------------------------------------------------- running a history
def datetime_of(us, how):
    kind, zone = how
    t = tzm.utc(us)
    if kind == "arrow":
        return sut.when(us, zone)
    if kind == "zoneinfo":
        return t.astimezone(ZoneInfo(zone))
    if kind == "dateutil":
        return t.astimezone(dtz.gettz(zone))
    if kind == "pytz":
        return t.astimezone(pytz.timezone(zone))
    if kind == "offset":
        off = t.astimezone(ZoneInfo(zone)).utcoffset()
        return t.astimezone(D.timezone(off))
    return t


def play(case, variant=None, shift=0):
    """Run the case; the world after it and what was seen on the way."""
    with ambient(variant or {}):
        return play_here(case, variant, shift)


def play_here(case, variant, shift):
    v = variant or {}
    case = dict(case, fs=list(case["fs"]))
    own = len(case["fs"])
    count = {"n": -1, "trades": 0}
    by = {}
    for s in case["script"]:
        by.setdefault((s["tick"], s["event"], s["who"]), []).append(s)

    def hook(self, event, epic):
        if not self.ref.startswith("s"):
            return
        for s in by.get((count["n"], event, int(self.ref[1:])), []):
            if s["do"] == "open":
                self.open_trade(epic, direction=sut.direction(s["dir"]), quantity=s["q"],
                                ref=f"t{count['trades']}")
                count["trades"] += 1
            elif s["do"] == "close":
                for t in self.get_trades(open_only=True):
                    self.close_trade(t, quantity=1)
            elif s["do"] == "pause":
                self.paused_until = sut.when(
                    case["ticks"][count["n"]][0] + s["q"] * 3600 * tzm.SEC, s["zone"])
            else:
                self.close_opened_trades()

    provider = TradeProviderBacktests() if case["nets"] else Plain()
    w = World(dict(case, fs=[], strats=0), provider=provider, hook=hook)
    extra = []

    def others(n, name):
        for k in range(n):
            u, q = v["sets"][k % len(v["sets"])]
            fs = sut.frame_set(u, q, 3, f"{name}{k}")
            fs.add_indicator(sut.indicator({"type": "ha", "ref": "x"}))
            fs.add_indicator(sut.indicator({"type": "sma", "ref": "y", "n": 3}))
            w.epic.add_frame_set(fs)
            extra.append(fs)
            s = world.Recorder(ref=f"idle {name}{k}")
            w.epic.add_strategy(s)

    others(v.get("before", 0), "before")
    for k, s in enumerate(case["fs"]):
        fs = sut.frame_set(s["unit"], s["q"], s.get("n"), f"f{k}")
        for spec in s.get("ind", []):
            fs.add_indicator(sut.indicator(spec))
        w.epic.add_frame_set(fs)
        w.sets.append((fs, s))
        if k == 0:
            others(v.get("between", 0), "between")
    for k in range(case["strats"]):
        s = world.Recorder(ref=f"s{k}", hook=hook)
        w.epic.add_strategy(s)
        w.strategies.append(s)
    others(v.get("after", 0), "after")
    seen = []
    hows = v.get("hows") or [["arrow", "UTC"]]
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        count["n"] = i
        if shift:
            bid, ask = (round(bid * 100) + shift) / 100, (round(ask * 100) + shift) / 100
        if v.get("ints") and bid == int(bid) and (v["ints"] == 1 or i % 2):
            bid = int(bid)
        if v.get("ints") and ask == int(ask) and (v["ints"] == 1 or i % 3):
            ask = int(ask)
        dt = datetime_of(us, hows[i % len(hows)])
        w.epic.on_new_tick(Tick(datetime=dt, bid=bid, ask=ask, meta={"i": i}))
        if i % 4 == 1:
            seen.append([w.market(), w.graphs(), w.trades_()])
    world.join_threads(w.epic.trade_provider)
    assert own == len(w.sets)
    return w, seen


def trades_(self):
    out = []
    for t in self.epic.trade_provider.trades:
        d = world.read_trade(t)
        d["closes"] = [x[:3] for x in d["closes"]]
        d["strategy"] = t.strategy.ref if t.strategy else None
        out.append(d)
    return out


World.trades_ = trades_


def everything(w):
    d = {"market": w.market(), "graphs": w.graphs(), "trades": w.trades_(),
         "notes": w.notes(), "open": [t.ref for t in w.epic.trade_provider.opened_trades]}
    for s in w.strategies:
        d[s.ref] = [s.result(), s.profit_factor(), bool(s.stopped),
                    None if s.paused_until is None else ob.us(s.paused_until),
                    [t.ref for t in s.get_trades()],
                    [t.ref for t in s.get_trades(open_only=True)]]
    return d


# -------------------------------------------------------------------- representation
def run_representation(case, ctx):
    base, seen = play(case)
    exp = everything(base)
    for v in case["variants"]:
        w, also = play(case, v)
        for n, (a, b) in enumerate(zip(seen, also)):
            d = diff(a, b)
            ctx.check(d is None, "the same history as %s: after tick %d: %s", v, 4 * n + 1, d)
        d = diff(exp, everything(w))
        ctx.check(d is None, "the same history as %s: %s", v, d)
    ctx.nontrivial = bool(exp["trades"]) and any(len(g) > 1 for g in exp["graphs"])
    if exp["trades"]:
        ctx.label("with trades")


@st.composite
def scripts(draw, n, ticks):
    out = []
    for _ in range(draw(gen.ints(0, 6))):
        out.append({"who": draw(gen.ints(0, n - 1)), "tick": draw(gen.ints(0, ticks - 1)),
                    "event": draw(gen.pick(["every", "every", "in", "open", "close"])),
                    "do": draw(gen.pick(["open", "open", "close", "open", "all", "pause"])),
                    "dir": draw(gen.pick(["BUY", "SELL"])), "q": draw(gen.ints(1, 4)),
                    "zone": draw(gen.zones())})
    return out


def real_zones():
    return gen.pick([z for z in tzm.ZONES])


@st.composite
def variants(draw, fs):
    v = {}
    # others are not much finer than the frame sets of the case: gaps are to fit
    finest = min([periods.length_s(f["unit"], f["q"]) for f in fs if f["unit"] != "TICK"]
                 or [60])
    pool = ["TICK"] + [u for u in periods.UNITS[1:] if periods.APPROX[u] * 20 >= finest]
    kinds = draw(st.lists(gen.pick(["zones", "ints", "sets", "again", "machine", "debug"]), min_size=1, max_size=3,
                          unique=True))
    if "zones" in kinds:
        v["hows"] = draw(st.lists(st.tuples(
            gen.pick(["arrow", "zoneinfo", "dateutil", "pytz", "offset", "utc"]),
            real_zones()).map(list), min_size=1, max_size=5))
    if "machine" in kinds:
        v["machine"] = draw(gen.zones())
    if "debug" in kinds:
        v["debug"] = True
    if "ints" in kinds:
        v["ints"] = draw(gen.ints(1, 2))
    if "sets" in kinds:
        v["sets"] = draw(st.lists(gen.timeframe(pool), min_size=1, max_size=2))
        for k in ("before", "between", "after"):
            v[k] = draw(gen.ints(0, 2))
    return v


@st.composite
def histories(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(limits=(None, 5, 1, 3, 10), max_sets=2, market=True))
    ticks = draw(world.stream(zone, fs, cal=cal, sizes=(3, 8, 14), max_size=22,
                              modes=["steps", "cents", "zero", "tiny", "wide", "fx"],
                              smooth=draw(gen.ints(0, 3)) > 0))
    n = draw(gen.ints(1, 2))
    return {"zone": zone, "cal": cal, "fs": fs, "strats": n, "nets": draw(st.booleans()),
            "script": draw(scripts(n, len(ticks))), "ticks": ticks,
            "variants": draw(st.lists(variants(fs), min_size=1, max_size=2))}


# ----------------------------------------------------------------------------- sizes
def run_sizes(case, ctx):
    zone = case["zone"]
    models = [FrameModel(u, q, zone) for u, q in case["pair"]]
    case = dict(case, nets=True, script=[], strats=0, fs=[
        {"unit": u, "q": q, "n": 1000, "ind": [{"type": "candle", "ref": "c"}]}
        for u, q in case["pair"]])
    try:
        for i, t in enumerate(case["ticks"]):
            for m in models:
                m.add(i, t[0])
    except Excluded as e:
        ctx.exclude(str(e))
        return
    w, _ = play(case)
    coarse, fine = [list(fs.frames) for fs, _ in w.sets]
    starts = []
    for c in coarse:
        # a start skipped by a clock change is the instant of the change
        wall, exists = tzm.resolve(c.period_start.naive, zone)
        starts.append(ob.us(c.period_start) if exists else wall)
    groups = {}
    k = 0
    last = None
    for f in fine:
        carried = last is not None and f.first_tick is last
        last = f.last_tick
        if carried:
            continue  # no tick of its own
        at = ob.us(f.first_tick.datetime)
        while k + 1 < len(coarse) and starts[k + 1] <= at:
            k += 1
        groups.setdefault(k, []).append(f)
    last = None
    for k, c in enumerate(coarse):
        what = f"frame of {case['pair'][0]} starting {c.period_start}"
        own = last is None or c.first_tick is not last
        last = c.last_tick
        ctx.check(own == (k in groups), "%s: %s finer frames with ticks but ticks are %d to %d",
                  what, "has" if k in groups else "has no", ob.tid(c.first_tick),
                  ob.tid(c.last_tick))
        if not own:
            continue
        g = groups[k]
        ctx.check(c.first_tick is g[0].first_tick and c.last_tick is g[-1].last_tick,
                  "%s: ticks %d to %d, finer frames have %d to %d", what,
                  ob.tid(c.first_tick), ob.tid(c.last_tick), ob.tid(g[0].first_tick),
                  ob.tid(g[-1].last_tick))
        ctx.check(c.nb_ticks == sum(f.nb_ticks for f in g), "%s: %d ticks, finer frames have "
                  "%s", what, c.nb_ticks, [f.nb_ticks for f in g])
        ctx.check(c.high_tick.value == max(f.high_tick.value for f in g)
                  and c.low_tick.value == min(f.low_tick.value for f in g),
                  "%s: from %s to %s, finer frames %s", what, c.low_tick.value,
                  c.high_tick.value, [(f.low_tick.value, f.high_tick.value) for f in g])
        a, b = ob.candle(c["c"]), [ob.candle(f["c"]) for f in g]
        ctx.check([a["open"], a["high"], a["low"], a["last"]] == [
            b[0]["open"], max(x["high"] for x in b), min(x["low"] for x in b), b[-1]["last"]],
            "%s: candle %s, finer ones %s", what, a, b)
        if len(g) > 1:
            ctx.nontrivial = True


@st.composite
def size_cases(draw):
    unit = draw(gen.pick(["MINUTE", "SECOND", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"]))
    order = [u for u in periods.UNITS if u not in ("TICK",)]
    if unit == "YEAR":
        q = draw(gen.pick([1, 2, 4, 10]))
    else:
        q = draw(gen.pick(periods.DIVISORS[unit]))
    # a finer timeframe whose periods make up the coarser ones
    options = [[unit, d] for d in (periods.DIVISORS.get(unit) or [1, 2, 5]) if q % d == 0 and
               d < q]
    below = {"MINUTE": ["SECOND"], "HOUR": ["MINUTE", "SECOND"], "DAY": ["HOUR", "MINUTE"],
             "WEEK": ["DAY", "HOUR"], "MONTH": ["DAY1", "HOUR"], "YEAR": ["MONTH", "DAY1"]}
    for u in below.get(unit, []):
        if u == "DAY1":
            options.append(["DAY", 1])
        else:
            for d in periods.DIVISORS[u]:
                options.append([u, d])
    if unit == "DAY" and q == 7:
        options += [["DAY", 1], ["WEEK", 1]]
    if not options:
        options = [[order[max(0, order.index(unit) - 1)], 1], ["SECOND", 1]]
        if unit == "SECOND":
            options = [["SECOND", 1]]
    fine = draw(gen.pick(options))
    zone = draw(gen.zones())
    fs = [{"unit": unit, "q": q}, {"unit": fine[0], "q": fine[1]}]
    start = draw(gen.anchors(zone))
    ticks = draw(world.stream(zone, fs, sizes=(4, 12, 20), max_size=30, start=start,
                              smooth=draw(st.booleans())))
    return {"zone": zone, "pair": [[unit, q], fine], "ticks": ticks}


# ----------------------------------------------------------------------------- shift
TOL = {"sma": 0.0101, "rsi": 0.0101, "ha": 0.0351, "candle": 1e-6, "pivot": None,
       "olhc": None}


def run_shift(case, ctx):
    a, _ = play(case)
    b, _ = play(case, shift=case["shift"])
    k = case["shift"] / 100
    far = 1e-6 + 1e-10 * max(abs(t[1]) for t in case["ticks"] + [[0, k, 0]])

    def near(x, y, tol, what):
        if x is None or y is None:
            ctx.check(x is None and y is None, "%s: %s and %s", what, x, y)
        else:
            ctx.check(abs(y - x) <= tol + far, "%s: %s and %s", what, x, y)

    ga, gb = a.graphs(), b.graphs()
    for n, (fa, fb) in enumerate(zip(ga, gb)):
        ctx.check(len(fa) == len(fb), "frame set %d: %d and %d frames after a shift", n,
                  len(fa), len(fb))
        specs = {s["ref"]: s for s in case["fs"][n]["ind"]}
        for j, (x, y) in enumerate(zip(fa, fb)):
            d = diff({i: v for i, v in x.items() if i != "ind"},
                     {i: v for i, v in y.items() if i != "ind"})
            ctx.check(d is None, "frame set %d, frame %d, prices shifted: %s", n, j, d)
            for ref, s in specs.items():
                u, v = x["ind"][ref], y["ind"][ref]
                what = f"frame set {n}, frame {j}, {s}, prices shifted by {k}"
                if u is None or v is None:
                    ctx.check(u is v, "%s: %s and %s", what, u, v)
                    continue
                t = s["type"]
                if t in ("candle", "ha"):
                    for name in ("open", "high", "low", "last", "close"):
                        near(None if u[name] is None else u[name] + k, v[name], TOL[t],
                             f"{what}: {name}")
                    if t == "candle":
                        for name in ("height", "body", "head", "tail"):
                            near(u[name], v[name], 1e-6, f"{what}: {name}")
                        ctx.check(u["color"] == v["color"], "%s: %s and %s", what, u["color"],
                                  v["color"])
                        if u["body"]:
                            ctx.label("candles with a body")
                elif t == "sma":
                    for name in [x for x in u if x.isdigit()]:
                        near(None if u[name] is None else u[name] + k, v[name], TOL[t],
                             f"{what}: mean of {name}")
                elif t == "rsi":
                    near(u["value"], v["value"], TOL[t], what)
    ta, tb = a.trades_(), b.trades_()
    ctx.check(len(ta) == len(tb), "%d and %d trades", len(ta), len(tb))
    for x, y in zip(ta, tb):
        for name in ("result", "max", "min", "opened_result", "closed_result"):
            near(x[name], y[name], 1e-6, f"trade {x['ref']} shifted: {name}")
        for name in ("ref", "dir", "open_quantity", "us", "opened", "closed_q", "closed",
                     "strategy"):
            ctx.check(x[name] == y[name], "trade %s shifted: %s is %s and %s", x["ref"], name,
                      x[name], y[name])
        for name in ("open_value", "current"):
            near(x[name] + k, y[name], 1e-6, f"trade {x['ref']} shifted: {name}")
    d = diff(a.notes(), b.notes())
    ctx.check(d is None, "notices after a shift: %s", d)
    for s, r in zip(a.strategies, b.strategies):
        near(s.result(), r.result(), 1e-6, f"result of {s.ref}")
        near(s.profit_factor(), r.profit_factor(), 0.0101, f"profit factor of {s.ref}")
    ctx.nontrivial = bool(ta) and any(len(g) > 1 for g in ga)


@st.composite
def shifted(draw):
    c = draw(histories())
    del c["variants"]
    # spreads of an even number of cents
    out = []
    for us, bid, ask in c["ticks"]:
        b = round(bid * 100)
        out.append([us, b / 100, (b + 2 * ((round(ask * 100) - b) // 2)) / 100])
    c["ticks"] = out
    c["shift"] = draw(st.one_of(gen.pick([1, 100, -1, 10000, -10000, 12345, 50, 10**7]),
                                gen.ints(-20000, 20000)))
    return c


SCENARIOS = [
    Scenario("representation", run_representation, histories, quick=3200, thorough=200000),
    Scenario("sizes", run_sizes, size_cases, quick=3500, thorough=200000),
    Scenario("shift", run_shift, shifted, quick=2500, thorough=150000),
]

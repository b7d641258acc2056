"""C28: reading never changes what is read."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from estrade.reporting.csv import ReportingCSV
from estrade.trade_provider import TradeProviderBacktests
from vlib import gen, observe as ob, sut, tzmodel as tzm, world
from vlib.harness import Scenario
from vlib.trading import Plain
from vlib.world import World, diff

PROPERTY = "C28"
RULE = (
    "A case is a history of an epic (any zone and calendar, up to three frame sets with "
    "indicators of every kind, some added during the history, one or two strategies which "
    "open, close and pause) and up to 30 reads placed anywhere: between ticks and inside "
    "notifications, of frames and indicator values at any distance, levels, averages, candles, "
    "links between frames, trade figures, listings (consumed or abandoned), statistics of lists "
    "and of generators, period arithmetic, texts, dictionaries and reports; lists and "
    "dictionaries they return are then emptied or filled. Each read made twice gives the same "
    "twice, and the history without the reads ends with the same frames, values, notifications, "
    "trades and statistics. Non-trivial: reads inside a notification, of several frames, in a "
    "history with trades."
)
ASSUMPTIONS = [
    "asking whether a paused strategy is active at a later time than its epics' ends its pause "
    "(pinned by a unit test): it is only asked for the time of the last tick",
    "objects which are the state itself (frames of a frame set, closes of a trade) are not "
    "changed by the harness",
]
SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") else None


def look(w, spec, value, k):
    """One figure of an indicator value."""
    if value is None:
        return None
    t = spec["type"]
    if t in ("candle", "ha"):
        names = ("open", "close", "last", "high", "low", "color", "body", "height", "tail")
    elif t == "sma":
        return value.get_value(1 + k % (spec["n"] + 1))
    elif t == "rsi":
        names = ("value", "last_tick")
    else:
        names = ("pivot", "support1", "resistance3", "support2", "resistance1")
    got = getattr(value, names[k % len(names)])
    return ob.tid(got) if hasattr(got, "meta") else got


def read(w, r):
    """One read; what it gave, as plain values."""
    what, k, n = r
    if what == "graphs":
        return w.graphs()
    if what == "market":
        return [w.market(), [bool(s.is_active(w.epic.last_tick.datetime))
                             for s in w.strategies]]
    if what in ("frame", "value", "one", "links", "walk", "period"):
        fs, spec = w.sets[k % len(w.sets)]
        inds = spec.get("ind", [])
        if what == "frame":
            f = w.epic.get_frame(fs.ref, offset=n)
            return None if f is None else ob.frame(f)
        if what == "period":
            # of times unrelated to the history
            start = fs.get_frame_start(sut.when(n * 10**15 // 7, w.zone))
            end = fs.get_frame_end(start)
            return [str(start), str(end)]
        if what == "walk":
            out, f = [], fs.frames[-1] if fs.frames else None
            while f is not None:
                out.append([f.nb_ticks, bool(f.closed), sorted(f.indicators)])
                f = f.previous_frame
            return out
        if not inds:
            return None
        ind = inds[(k + n) % len(inds)]
        if what == "value":
            v = w.epic.get_indicator_value(fs.ref, ind["ref"], offset=n)
            return world.read_indicator(ind, v)
        f = w.epic.get_frame(fs.ref, offset=n % 3)
        v = None if f is None else f[ind["ref"]]
        if what == "one":
            return look(w, ind, v, n)
        return None if v is None else [
            None if v.previous is None else world.read_indicator(ind, v.previous),
            None if v.next is None else world.read_indicator(ind, v.next),
            v.nb_ticks, bool(v.closed)]
    if what == "absent":
        try:
            return str(w.epic.get_frame("no such frame set", offset=n))
        except KeyError:
            pass
        # an indicator which is not there, or not yet
        ref = ["late0", "late1", "no such indicator"][k % 3]
        fs, spec = w.sets[n % len(w.sets)]
        if any(x["ref"] == ref for x in spec.get("ind", [])):
            return None
        f = w.epic.get_frame(fs.ref, offset=0)
        return None if f is None else [
            f[ref] is None, w.epic.get_indicator_value(fs.ref, ref, offset=k % 2) is None]
    if what == "trades":
        return w.trades()
    if what == "opened":
        got = w.epic.trade_provider.opened_trades
        out = [t.ref for t in got]
        spoil(got, n)
        return out
    if what == "texts":
        last = w.epic.last_tick
        d = last.asdict(bool(n % 2))
        out = [str(w.epic), str(last), str(sorted(map(str, d.items())))]
        spoil(d, n)
        for t in list(w.epic.trade_provider.trades):
            d = t.asdict()
            out.append(str(sorted(map(str, d.items()))))
            spoil(d, n)
        return out + [str(last.datetime_utc), last.value, last.spread]
    if what == "alive":
        w.epic.trade_provider.is_alive
        return None
    s = w.strategies[k % len(w.strategies)]
    if what == "listing":
        kw = [{}, {"open_only": True}, {"epics": [w.epic]},
              {"only_after": w.epic.last_tick.datetime}][n % 4]
        got = list(s.get_trades(**kw))
        out = [t.ref for t in got]
        spoil(got, n)
        return out
    if what == "partly":
        # a listing which is not read to its end
        g = s.get_trades(open_only=bool(n % 2))
        first = next(g, None)
        w.suspended.append(g)
        return None if first is None else first.ref
    if what == "stats":
        out = [s.result(), s.profit_factor(), s.result([]), s.profit_factor([]),
               s.result(s.get_trades()), s.profit_factor(s.get_trades(open_only=True))]
        mine = list(s.get_trades())
        out += [s.result(mine), s.profit_factor(mine), len(mine)]
        return out
    if what == "report":
        folder = tempfile.mkdtemp(prefix="estrade-c28.", dir=SCRATCH)
        try:
            ReportingCSV(target_folder=folder).report(list(w.strategies), bool(n % 2))
            return len(os.listdir(folder)) > 0
        finally:
            shutil.rmtree(folder)
    raise ValueError(what)


def spoil(got, n):
    """The caller does what he wants with what he was given."""
    if isinstance(got, dict):
        got.clear() if n % 2 else got.update(ref="spoiled", bid=0, meta=None)
    elif n % 3 == 0:
        got.clear()
    elif n % 3 == 1:
        got.reverse()
        got.append(None)


class Repeatable(World):
    def __init__(self, *a, **kw):
        self.suspended = []
        super().__init__(*a, **kw)


def play(case, reads, ctx):
    count = {"n": -1, "trades": 0, "inside": 0}
    by, at = {}, {}
    for s in case["script"]:
        by.setdefault((s["tick"], s["event"], s["who"]), []).append(s)
    for r in reads:
        at.setdefault((r["tick"], r["at"]), []).append(r["read"])

    def reading(where):
        for r in at.get((count["n"], where), []):
            a = read(w, r)
            b = read(w, r)
            d = diff(a, b)
            ctx.check(d is None, "%s read twice after tick %d: %s", r, count["n"], d)
            if where != "after" and where != "before":
                count["inside"] += 1

    def hook(self, event, epic):
        reading(event)
        for s in by.get((count["n"], event, int(self.ref[1:])), []):
            if s["do"] == "open":
                self.open_trade(epic, direction=sut.direction(s["dir"]), quantity=s["q"],
                                ref=f"t{count['trades']}")
                count["trades"] += 1
            elif s["do"] == "close":
                for t in self.get_trades(open_only=True):
                    self.close_trade(t, quantity=1)
            elif s["do"] == "pause":
                self.paused_until = sut.when(
                    case["ticks"][count["n"]][0] + s["q"] * 3600 * tzm.SEC, s["zone"])
            else:
                self.close_opened_trades()
        reading(event)

    provider = TradeProviderBacktests() if case["nets"] else Plain()
    w = Repeatable(case, provider=provider, hook=hook)
    late = {}
    for k, n, spec in case["late"]:
        late.setdefault(n, []).append((k % len(w.sets), spec))
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        count["n"] = i
        reading("before")
        for k, spec in late.get(i, []):
            fs, s = w.sets[k]
            fs.add_indicator(sut.indicator(spec))
            s["ind"] = s["ind"] + [spec]
        w.epic.on_new_tick(sut.tick(i, us, bid, ask))
        reading("after")
    world.join_threads(provider)
    return w, count


def outcome(w):
    d = w.snapshot()
    d["open"] = [t.ref for t in w.epic.trade_provider.opened_trades]
    d["all"] = [t.ref for t in w.epic.trade_provider.trades]
    for t in d["trades"]:
        t["closes"] = [x[:3] for x in t["closes"]]
    for s in w.strategies:
        d[s.ref] = [s.result(), s.profit_factor(), [t.ref for t in s.get_trades()],
                    [t.ref for t in s.get_trades(open_only=True)]]
    return d


def run(case, ctx):
    copy = lambda: dict(case, fs=[dict(s) for s in case["fs"]])
    without, _ = play(copy(), [], ctx)
    w, count = play(copy(), case["reads"], ctx)
    a, b = outcome(without), outcome(w)
    d = diff(a, b)
    ctx.check(d is None, "without reads and with %s: %s", case["reads"][:6], d)
    ctx.nontrivial = (count["inside"] > 0 and bool(a["trades"])
                      and any(len(g) > 2 for g in a["graphs"]))
    if a["trades"]:
        ctx.label("with trades")


READS = ["graphs", "frame", "value", "one", "links", "walk", "period", "absent", "trades",
         "opened", "texts", "alive", "listing", "partly", "stats", "market", "one", "value",
         "listing", "opened", "graphs"]


@st.composite
def histories(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(limits=(None, 3, 1, 2, 5, 10), max_sets=2, market=True))
    ticks = draw(world.stream(zone, fs, cal=cal, sizes=(8, 3, 14), max_size=24,
                              smooth=draw(gen.ints(0, 3)) > 0))
    i = gen.ints
    last = len(ticks) - 1
    n = draw(i(1, 2))
    script = []
    for _ in range(draw(i(0, 6))):
        script.append({"who": draw(i(0, n - 1)), "tick": draw(i(0, last)),
                       "event": draw(gen.pick(["every", "every", "in", "open", "close"])),
                       "do": draw(gen.pick(["open", "open", "close", "open", "all", "pause"])),
                       "dir": draw(gen.pick(["BUY", "SELL"])), "q": draw(i(1, 4)),
                       "zone": draw(gen.zones())})
    late = []
    for k in range(draw(gen.pick([0, 0, 1, 2]))):
        spec = draw(world.indicator_specs(1, None, max_size=1, types=[
            "candle", "ha", "sma", "pivot", "olhc"], market=True))[0]
        late.append([draw(i(0, 1)), draw(i(0, last)), dict(spec, ref=f"late{k}")])
    reads = []
    for _ in range(draw(i(1, 12))):
        what = draw(gen.pick(READS + (["report"] if draw(i(0, 9)) == 9 else [])))
        one = {"tick": draw(i(0, last)), "at": draw(gen.pick(
            ["after", "every", "every", "in", "before", "open"])),
            "read": [what, draw(i(0, 3)), draw(i(0, 6))]}
        reads.append(one)
        if late and draw(i(0, 3)) == 3:  # an indicator before it is registered
            k, t, _ = draw(gen.pick(late))
            reads.append({"tick": max(t - draw(i(0, 1)), 0), "at": draw(gen.pick(
                ["after", "before"])), "read": ["absent", draw(i(0, 1)), k]})
        if draw(i(0, 4)) == 4:  # the same at many ticks
            reads += [dict(one, tick=t) for t in range(0, last + 1, draw(i(1, 3)))][:12]
    return {"zone": zone, "cal": cal, "fs": fs, "strats": n, "nets": draw(st.booleans()),
            "script": script, "ticks": ticks, "late": late, "reads": reads}


SCENARIOS = [Scenario("reads", run, histories, quick=5000, thorough=300000)]

"""C27: a refused request leaves no trace."""
from hypothesis import strategies as st

from estrade import Epic, Trade
from estrade.exceptions import (BaseIndicatorException, EpicException, EstradeException,
                                TickException, TimeException, TimeFrameException,
                                TradeException)
from estrade.trade import TradeClose
from vlib import gen, sut, tzmodel as tzm, world
from vlib.gen import pick
from vlib.harness import Scenario
from vlib.trading import Plain
from vlib.world import World, diff

PROPERTY = "C27"
RULE = (
    "A case is an epic (zone, calendar, frame sets, indicators, strategies), a stream, openings "
    "and closes between the ticks, and invalid requests at any moment: openings with no legal "
    "direction by any route, closes, trades and changes of time without timezone or with "
    "something that is not a time, anterior ticks, unknown timezones, registrations under a used "
    "reference, indicators too long for their frame set, illegal timeframes, prices which are "
    "not numbers. A twin gets the valid requests only. After each invalid request the error is "
    "the documented one and everything there is to see is the same on both, as it is at the end. "
    "Non-trivial: three kinds of refusals or more, with trades open and frames, and valid "
    "requests after the last one."
)
ASSUMPTIONS = ["a refused request may be logged"]
DIRECTIONS = [None, "BUY", 1, -1, 0, "sell", "", 2.5]


class Counted(Plain):
    def __init__(self):
        super().__init__()
        self.seen = []

    def open_trade_request(self, trade):
        self.seen.append(["open", trade.ref])
        return super().open_trade_request(trade)

    def close_trade_request(self, trade_close):
        self.seen.append(["close", trade_close.ref])
        return super().close_trade_request(trade_close)


class Side:
    def __init__(self, case):
        self.provider = Counted()
        self.w = World(case, provider=self.provider)
        self.trades = []

    def see(self):
        world.join_threads(self.provider)
        d = self.w.snapshot()
        d["requests"] = sorted(self.provider.seen)
        d["status"] = [[t.status.name, sorted(t.meta.items()), len(t.closes),
                        [[c.status.name, sorted(c.meta.items())] for c in t.closes]]
                       for t in self.provider.trades]
        d["zone"] = self.w.epic.timezone
        d["sets"] = [[r, fs.unit.name, fs.unit_quantity, fs.max_frames_in_memory,
                      sorted(fs.indicators)] for r, fs in self.w.epic.frame_sets.items()]
        d["strategies"] = [[s.ref, sorted(s.epics), [t.ref for t in s.trades]]
                           for s in self.w.strategies]
        d["registered"] = list(self.w.epic.strategies)
        return d

    def do(self, op, n):
        """A valid request."""
        e = self.w.epic
        if op[0] == "open":
            _, s, buy, q = op
            kw = {"direction": sut.direction("BUY" if buy else "SELL"), "quantity": q,
                  "ref": f"t{len(self.trades)}"}
            if s % (len(self.w.strategies) + 1) == 0:
                t = e.open_trade(**kw)
            else:
                t = self.w.strategies[s % len(self.w.strategies)].open_trade(e, **kw)
            self.trades.append(t)
        elif op[0] == "close" and self.trades:
            t = self.trades[op[1] % len(self.trades)]
            if not t.closed:
                e.close_trade(t, quantity=op[2], ref=f"c{n}")


def no_time(kind, us, zone):
    return {"naive": tzm.local(us, zone), "none": None, "text": tzm.utc(us).isoformat(),
            "number": us, "date": tzm.local(us, zone).date()}[kind]


def refuse(ctx, side, op, us):
    """An invalid request; returns the error it has to raise, and calls it."""
    w, e = side.w, side.w.epic
    kind, a, b = op[1], op[2], op[3]
    when = no_time(["naive", "none", "text", "number", "date"][a % 5], us, w.zone)
    trade = side.trades[b % len(side.trades)] if side.trades else None
    strategy = w.strategies[b % len(w.strategies)] if w.strategies else None
    ref_fs = w.sets[b % len(w.sets)][0] if w.sets else None
    if kind == "direction":
        d = DIRECTIONS[a % len(DIRECTIONS)]
        kw = {"direction": d, "quantity": 1 + a % 3, "ref": "bad"}
        route = b % 4
        if route == 0 and strategy is not None:
            return TradeException, lambda: strategy.open_trade(e, **kw)
        if route == 1:
            return TradeException, lambda: Trade.open_from_epic(epic=e, **kw)
        if route == 2:
            return TradeException, lambda: Trade.open_from_tick(tick=e.last_tick, epic=e, **kw)
        return TradeException, lambda: e.open_trade(strategy=strategy, **kw)
    if kind == "close" and trade is not None:
        if b % 3 == 2:
            return TimeException, lambda: TradeClose(
                trade=trade, close_value=1.0, quantity=1, datetime=when)
        kw = {} if a % 2 else {"quantity": 1}
        return TimeException, lambda: trade.close(close_value=1.0 + a, datetime=when, **kw)
    if kind == "trade":
        return TimeException, lambda: Trade(
            direction=sut.direction("SELL"), quantity=2, open_value=1.0, open_datetime=when,
            epic=e, strategy=strategy)
    if kind == "time":
        def set_time(o):
            o.datetime = when
        target = trade if trade is not None and b % 2 else e.last_tick
        return TimeException, lambda: set_time(target)
    if kind == "anterior":
        return EpicException, lambda: e.on_new_tick(
            sut.tick(-1, us - 1 - a * 600 * tzm.SEC, 5.0, 6.0, ["UTC", "Asia/Tokyo"][b % 2]))
    if kind == "zone":
        bad = ["Mars/Base", "", "utc+1", "Europe/paris ", None, 7][a % 6]
        if b % 2:
            return EpicException, lambda: Epic(timezone=bad)

        def set_zone():
            e.timezone = bad
        return EpicException, set_zone
    if kind == "register":
        if a % 2 and ref_fs is not None:
            other = sut.frame_set("MINUTE", 5, 7, ref_fs.ref) if a % 3 else ref_fs
            return EpicException, lambda: e.add_frame_set(other), lambda: [
                other.ref, None if other.epic is None else other.epic.ref, len(other.frames),
                sorted(other.indicators), other.unit.name, other.unit_quantity]
        if strategy is not None:
            other = world.Recorder(ref=strategy.ref) if a % 3 else strategy
            return EpicException, lambda: e.add_strategy(other), lambda: [
                other.ref, sorted(other.epics), len(other.trades), other.stopped,
                other.paused_until]
    if kind == "indicator" and ref_fs is not None:
        ref = (sorted(ref_fs.indicators) + ["new"])[a % (len(ref_fs.indicators) + 1)]
        n = ref_fs.max_frames_in_memory // ref_fs.unit_quantity + 1 + a
        return BaseIndicatorException, lambda: ref_fs.add_indicator(
            sut.indicator({"type": "rsi", "ref": ref, "n": n}))
    if kind == "timeframe":
        u, q = [("MINUTE", 7), ("HOUR", 24), ("DAY", 2), ("WEEK", 2), ("TICK", 0),
                ("YEAR", -1), ("MONTH", 5), ("SECOND", 61)][a % 8]
        return TimeFrameException, lambda: e.add_frame_set(sut.frame_set(u, q, 5, "bad"))
    bad = [None, "1", [], {}][a % 4]

    def set_price():
        if b % 2:
            e.last_tick.bid = bad
        else:
            e.last_tick.ask = bad
    if b % 3:
        return TickException, set_price
    return TickException, lambda: e.on_new_tick(sut.tick(-1, us, 7.0, 6.5 if a % 2 else bad))


def run(case, ctx):
    real, twin = Side(case), Side(case)
    kinds = set()
    rich = last_was_valid = False
    ops = {}
    for op in case["ops"]:
        ops.setdefault(op[0], []).append(op[1:])
    for i, (us, bid, ask) in enumerate(case["ticks"]):
        for side in (real, twin):
            side.w.epic.on_new_tick(sut.tick(i, us, bid, ask))
        for n, op in enumerate(ops.get(i, [])):
            if op[0] != "bad":
                for side in (real, twin):
                    side.do(op, 100 * i + n)
                last_was_valid = True
                continue
            error, request, *own = refuse(ctx, real, op, us)
            was = own[0]() if own else None
            try:
                request()
            except error:
                pass
            except EstradeException as x:
                ctx.fail(f"{op}: refused with {type(x).__name__}, expected {error.__name__}")
            else:
                ctx.fail(f"{op} at tick {i}: accepted, expected {error.__name__}")
            d = diff(real.see(), twin.see())
            ctx.check(d is None, "%s at tick %d left a trace: %s (with and without)", op, i, d)
            if own:
                ctx.check(own[0]() == was, "%s at tick %d: what was refused went from %s to %s",
                          op, i, was, own[0]())
            kinds.add(op[1])
            last_was_valid = False
            rich |= len(kinds) >= 3 and any(not t.closed for t in real.trades)
        last_was_valid |= i < len(case["ticks"]) - 1 and not ops.get(i)
    d = diff(real.see(), twin.see())
    ctx.check(d is None, "at the end: %s (with and without refused requests)", d)
    ctx.nontrivial = rich and last_was_valid
    for k in kinds:
        ctx.label(f"refused: {k}")


KINDS = ["direction", "close", "trade", "time", "anterior", "zone", "register", "indicator",
         "timeframe", "price"]


@st.composite
def programs(draw):
    zone = draw(gen.zones())
    cal = draw(gen.calendar())
    fs = draw(world.graphs(limits=(None, 3, 1, 5), max_sets=2))
    ticks = draw(world.stream(zone, fs, sizes=(1, 3, 5, 8), max_size=10, cal=cal))
    i = gen.ints
    ops = []
    for _ in range(draw(pick([1, 6, 10, 14, 18]))):
        at = draw(i(0, len(ticks) - 1))
        kind = draw(pick(["bad", "open", "bad", "close", "bad"]))
        if kind == "bad":
            ops.append([at, kind, draw(pick(KINDS)), draw(i(0, 11)), draw(i(0, 5))])
        elif kind == "open":
            ops.append([at, kind, draw(i(0, 5)), draw(i(0, 1)), draw(i(1, 5))])
        else:
            ops.append([at, kind, draw(i(0, 9)), draw(i(1, 4))])
    ops += [[draw(i(0, len(ticks) // 2)), "open", draw(i(0, 5)), draw(i(0, 1)), 3]
            for _ in range(draw(i(0, 1)))]
    return {"zone": zone, "cal": cal, "fs": fs, "ticks": ticks, "ops": ops,
            "strats": draw(i(0, 2))}


SCENARIOS = [Scenario("refusals", run, programs, quick=5000, thorough=300000)]

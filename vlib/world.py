"""A whole set-up (epic, frame sets, indicators, strategies, trades) and its snapshot."""
import random

from estrade import BaseStrategy
from estrade.exceptions import (EpicException, EstradeException, TickException, TimeException,
                                TradeException)

from vlib import gen, observe as ob, sut, tzmodel as tzm
from vlib.gen import pick
from hypothesis import strategies as st

NOTICES = ("on_every_tick", "on_market_open", "on_market_close",
           "on_every_tick_market_open")


class Injected(Exception):
    """Raised by strategies on purpose."""


def _injected(base):
    return type(f"Injected{base.__name__}", (Injected, base), {})


# failures of the kinds a package could be tempted to handle itself
FAILURES = {b.__name__: _injected(b) for b in (
    ValueError, KeyError, IndexError, TypeError, AttributeError, StopIteration,
    ZeroDivisionError, AssertionError, RuntimeError, NotImplementedError, GeneratorExit,
    KeyboardInterrupt, EstradeException, EpicException, TradeException, TickException,
    TimeException)}
FAILURES["Exception"] = Injected


class Recorder(BaseStrategy):
    """Records each notification; `hook(self, event, epic)` may act."""

    def __init__(self, ref=None, hook=None):
        super().__init__(ref=ref)
        self.log = []
        self.hook = hook

    def _note(self, event, epic):
        self.log.append([event, epic.ref, epic.last_tick.meta.get("i")])
        if self.hook is not None:
            self.hook(self, event, epic)

    def on_every_tick(self, epic):
        self._note("every", epic)

    def on_market_open(self, epic):
        self._note("open", epic)

    def on_market_close(self, epic):
        self._note("close", epic)

    def on_every_tick_market_open(self, epic):
        self._note("in", epic)


def read_indicator(spec, value):
    if value is None:
        return None
    out = ob.generic(value)
    t = spec["type"]
    if t in ("candle", "ha"):
        out.update(ob.candle(value))
    elif t == "sma":
        out.update(ob.sma(value, sorted({1, 2, 3, spec["n"], spec["n"] + 1})))
    elif t == "rsi":
        out.update(ob.rsi(value))
    else:
        out.update(ob.pivot(value))
    return out


def read_frame_set(fs, inds, tail=None):
    out = ob.frames(fs)
    objs = list(fs.frames)
    for o, d in zip(objs, out):
        d["ind"] = {s["ref"]: read_indicator(s, o[s["ref"]]) for s in inds}
    return out if tail is None else out[-tail:]


def read_trade(t):
    return {
        "ref": t.ref, "dir": t.direction.name, "open_quantity": t.open_quantity,
        "open_value": ob.num(t.open_value), "current": ob.num(t.current_close_value),
        "us": ob.us(t.datetime), "opened": t.opened_quantities,
        "closed_q": t.closed_quantities, "closed": t.closed,
        "result": ob.num(t.result), "max": ob.num(t.max_result),
        "min": ob.num(t.min_result), "opened_result": ob.num(t.opened_result),
        "closed_result": ob.num(t.closed_result),
        "closes": [[c.quantity, ob.num(c.close_value), ob.us(c.datetime), c.ref]
                   for c in t.closes],
    }


class World:
    def __init__(self, case, ref="epic", provider=None, zone=None, hook=None):
        self.case = case
        self.zone = zone or case["zone"]
        self.epic = sut.epic(self.zone, case.get("cal"), case.get("hols"), ref, provider)
        self.sets = []
        for k, s in enumerate(case["fs"]):
            fs = sut.frame_set(s["unit"], s["q"], s.get("n"), f"f{k}")
            for spec in s.get("ind", []):
                fs.add_indicator(sut.indicator(spec))
            self.epic.add_frame_set(fs)
            self.sets.append((fs, s))
        self.strategies = []
        for k in range(case.get("strats", 0)):
            s = Recorder(ref=f"s{k}", hook=hook)
            self.epic.add_strategy(s)
            self.strategies.append(s)

    def market(self):
        return {
            "last": self.epic.last_tick.meta.get("i"),
            "bid": ob.num(self.epic.last_tick.bid),
            "us": ob.us(self.epic.last_tick.datetime),
            "wall": ob.wall(self.epic.last_tick.datetime),
            "open": bool(self.epic.market_open),
            "is_open": bool(self.epic.is_market_open()),
        }

    def graphs(self):
        return [read_frame_set(fs, s.get("ind", [])) for fs, s in self.sets]

    def trades(self):
        return [read_trade(t) for t in self.epic.trade_provider.trades]

    def notes(self):
        return {s.ref: [list(x) for x in s.log] for s in self.strategies}

    def snapshot(self, notes=True):
        d = {"market": self.market(), "graphs": self.graphs(), "trades": self.trades()}
        if notes:
            d["notes"] = self.notes()
            d["state"] = {s.ref: [bool(s.stopped),
                                  None if s.paused_until is None else
                                  ob.us(s.paused_until),
                                  len(s.trades)] for s in self.strategies}
        return d


def diff(a, b, path=""):
    """First difference of two plain values, as text (None when equal)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} only in one"
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if a != b:
        return f"{path}: {a!r} and {b!r}"
    return None


def join_threads(*providers):
    for p in providers:
        for t in list(p.threads):
            t.join(30)


# ------------------------------------------------------------------------ strategies
IND_TYPES = ["candle", "ha", "sma", "rsi", "pivot", "olhc"]


@st.composite
def indicator_specs(draw, q, n, types=IND_TYPES, market=False, max_size=4):
    out = []
    for k, t in enumerate(draw(st.lists(pick(types), min_size=1, max_size=max_size))):
        spec = {"type": t, "ref": f"i{k}"}
        if t == "sma":
            spec["n"] = draw(pick([3, 1, 2, 5, 12]))
        if t == "rsi":
            limit = (n or 100) // q
            if limit < 1:
                spec["type"] = "candle"
            else:
                spec["n"] = draw(gen.ints(1, min(limit, max(1, 14 // q))))
        if market and draw(st.booleans()):
            spec["market"] = True
        out.append(spec)
    return out


@st.composite
def graphs(draw, units=None, types=IND_TYPES, limits=(None, 3, 1, 2, 5, 1000), market=False,
           max_sets=3, small_q=False):
    out = []
    for _ in range(draw(pick([1, 2, max_sets][:max_sets]))):
        u, q = draw(gen.timeframe(units or gen.periods.UNITS))
        n = draw(pick(list(limits)))
        out.append({"unit": u, "q": q, "n": n,
                    "ind": draw(indicator_specs(q, n, types, market))})
    return out


@st.composite
def stream(draw, zone, fs, modes=None, sizes=(0, 5, 15, 30), max_size=40, cal=None,
           smooth=False, backwards=False, start=None):
    mode = draw(gen.price_mode(modes) if modes else gen.price_mode())
    if start is None:
        start = draw(gen.anchors(zone, gen.marks_of(cal) if cal else ()))
    toks = draw(gen.tokens(draw(pick(list(sizes))), max_size, smooth, backwards))
    times = gen.instants(toks, zone, start, [(s["unit"], s["q"]) for s in fs],
                         marks=gen.marks_of(cal) if cal else ())
    prices = draw(gen.price_tokens(len(times)))
    return [[t] + gen.price(mode, p, s) for t, (p, s) in zip(times, prices)]


def lengthen(run):
    """A run over the ticks a compact description stands for (see `long`)."""

    def longer(case, ctx):
        ticks = walk(case["ticks"])
        ctx.label("ticks", len(ticks))
        return run(dict(case, ticks=ticks), ctx)

    return longer


def walk(t):
    """Ticks of a random walk, reproducible from its description."""
    rng = random.Random(t["seed"])
    us, cents, out = t["start"], t["base"], []
    for _ in range(t["count"]):
        cents += rng.randint(-t["swing"], t["swing"])
        out.append([us, cents / 100, (cents + 2 * rng.randint(0, 3)) / 100])
        us += t["step"] * (t["gap"] if rng.random() < 0.02 else rng.choice([1, 1, 1, 0, 2]))
        if us > t["until"]:
            break
    return out


@st.composite
def long(draw, programs, counts=(120, 60, 300), paces=(1, 3, 40, 150),
         gaps=(1, 7, 30)):
    """A case of `programs` with a much longer history, described by a random walk."""
    case = draw(programs)
    timed = [gen.periods.length_s(s["unit"], s["q"]) for s in case.get("fs") or [case["f"]]
             if s["unit"] != "TICK"] or [60]
    base = draw(pick(timed))
    if base / min(timed) > 100:
        base = min(timed)
    lo, hi = tzm.bounds(case["zone"])
    ticks = case["ticks"]
    start = ticks[0][0] if ticks else draw(gen.anchors(case["zone"]))
    case["ticks"] = {
        "start": start, "step": max(1, int(base * tzm.SEC / draw(pick(list(paces))))),
        "count": draw(pick(list(counts))), "seed": draw(gen.ints(0, 2**32)),
        "base": draw(pick([10000, 0, -40000, 12345678])), "swing": draw(pick([3, 1, 300, 3, 50000])),
        "gap": draw(pick(list(gaps))), "until": hi}
    return case

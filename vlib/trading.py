"""Programs of ticks, openings and closings over epics, strategies and providers."""
from hypothesis import strategies as st

from estrade import Trade
from estrade.enums import TransactionStatus
from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

from vlib import gen, observe as ob, sut, tzmodel as tzm
from vlib.world import Recorder, join_threads

SCALE = 100000  # prices are compared in 1e-5


class Plain(BaseTradeProvider):
    """A provider which confirms at once and nets nothing."""

    def open_trade_request(self, trade):
        trade.status = TransactionStatus.CONFIRMED
        return trade

    def close_trade_request(self, trade_close):
        trade_close.status = TransactionStatus.CONFIRMED
        return trade_close


def units(x):
    return round(x * SCALE)


def cents(move):
    """A move in 1e-5 rounded to cents; (cents, tie): a tie may go either way."""
    q, r = divmod(move, 1000)
    if r == 500:
        return q, True
    return q + (1 if r > 500 else 0), False


class Info:
    """What the harness knows of a trade it opened."""

    def __init__(self, obj, k, e, s, buy, q, tick):
        self.obj, self.k, self.e, self.s, self.buy, self.q = obj, k, e, s, buy, q
        self.tick = tick  # (us, bid, ask) when opened
        self.name = f"trade {k} ({'buy' if buy else 'sell'} {q} by {s} on epic {e})"

    def side(self, tick):
        """Price at which the trade is valued."""
        return tick[1] if self.buy else tick[2]

    def move(self, price, open_value):
        d = units(price) - units(open_value)
        return d if self.buy else -d


class Sim:
    def __init__(self, case, provider=None):
        self.case = case
        self.providers = []
        sized = bool(case.get("sized"))
        for net in case["providers"]:
            self.providers.append(
                sut.sized(TradeProviderBacktests if net else Plain, sized)())
        if provider is not None and self.providers:
            self.providers[0] = provider
        self.epics = []
        self.ticks = []
        for k, p in enumerate(case["epic_prov"]):
            self.epics.append(sut.epic(case["zones"][k], ref=self.ref("e", k),
                                       provider=None if p is None else self.providers[p]))
            self.ticks.append(None)
        # an epic without provider has its own, which nets
        self.nets = [True if p is None else bool(case["providers"][p])
                     for p in case["epic_prov"]]
        self.strategies = [sut.sized(Recorder, sized)(ref=self.ref("s", k))
                           for k in range(case["strats"])]
        # strategies with the same reference cannot be registered together, but can trade
        for s in self.strategies if not case.get("twins") else ():
            for e in self.epics:
                e.add_strategy(s)
        self.trades = []
        self.now = case["start"]
        self.level = 0
        self.n = 0
        for k in range(len(self.epics)):
            self.tick(k, 0, 0, 1)

    def ref(self, kind, k):
        """References are the letter and number, or those of the case."""
        if self.case.get("twins"):
            return "same"
        given = self.case.get(f"{kind}_refs")
        return given[k % len(given)] if given else f"{kind}{k}"

    def provider(self, e):
        return self.epics[e].trade_provider

    def strategy(self, s):
        return None if not self.strategies or s < 0 else s % len(self.strategies)

    def price(self, p, s):
        return gen.price(self.case["mode"], p, s)

    def tick(self, e, dt, p, s, own=None):
        self.now += dt * tzm.SEC
        bid, ask = self.price(p, s)
        if self.case.get("ints") and bid == int(bid) and ask == int(ask):
            bid, ask = int(bid), int(ask)
        if own is not None:
            last = self.ticks[e][0]
            us = min(self.now, last + own * tzm.SEC)
        else:
            us = self.now
        self.epics[e].on_new_tick(sut.tick(self.n, us, bid, ask))
        self.n += 1
        self.ticks[e] = (us, bid, ask)

    def apply(self, op):
        kind = op[0]
        ev = {"kind": kind}
        if kind == "tick":
            _, e, dt, p, s = op
            e %= len(self.epics)
            self.tick(e, dt, p, s)
            ev.update(e=e)
        elif kind == "open":
            _, e, s, buy, q = op
            q *= self.case.get("lot", 1)
            e %= len(self.epics)
            s = self.strategy(s)
            kw = {"direction": sut.direction("BUY" if buy else "SELL"), "quantity": q,
                  "ref": self.ref("t", len(self.trades))}
            if s is None:
                t = self.epics[e].open_trade(**kw)
            elif len(self.trades) % 2:
                t = self.epics[e].open_trade(strategy=self.strategies[s], **kw)
            else:
                t = self.strategies[s].open_trade(self.epics[e], **kw)
            info = Info(t, len(self.trades), e, s, bool(buy), q, self.ticks[e])
            self.trades.append(info)
            ev.update(e=e, trade=info)
        elif kind == "opentick":
            # at a tick of its own, which the epic does not receive
            _, e, s, buy, q, dt, p, how = op
            e, s, q = e % len(self.epics), self.strategy(s), q * self.case.get("lot", 1)
            us = self.now + dt * tzm.SEC
            bid, ask = self.price(p, how)
            tick = sut.tick(10**6, us, bid, ask, self.case["zones"][e])
            kw = {"direction": sut.direction("BUY" if buy else "SELL"), "quantity": q,
                  "ref": self.ref("t", len(self.trades))}
            if s is not None:
                kw["strategy"] = self.strategies[s]
            if how % 3 == 0:
                t = Trade.open_from_tick(tick, self.epics[e], **kw)
            else:
                kw.update(open_value=ask if buy else bid, open_datetime=tick.datetime,
                          epic=self.epics[e])
                if how % 3 == 1:
                    kw["current_close_value"] = bid if buy else ask
                else:
                    bid = ask = kw["open_value"]
                t = Trade(**kw)
            self.provider(e).open_trade(t)
            info = Info(t, len(self.trades), e, s, bool(buy), q, (us, bid, ask))
            self.trades.append(info)
            ev.update(kind="open", e=e, trade=info)
        elif kind in ("close", "explicit", "update", "tickclose"):
            if not self.trades:
                return None
            info = self.trades[op[1] % len(self.trades)]
            t = info.obj
            ev.update(e=info.e, trade=info)
            if kind == "update":
                how = op[3] if len(op) > 3 else 0
                if how == 0:
                    price = self.price(op[2], 0)[0]
                    t.update(price)
                elif how == 1:
                    # from a tick of its own, which the epic does not receive
                    us = self.now
                    bid, ask = self.price(op[2], 2)
                    t.update_from_tick(sut.tick(10**6, us, bid, ask))
                    price = info.side((us, bid, ask))
                else:
                    t.update_from_epic()
                    price = info.side(self.ticks[info.e])
                ev.update(price=price)
            else:
                q = op[2] * self.case.get("lot", 1) or None
                kw = {} if q is None else {"quantity": q}
                ev.update(q=q)
                if kind == "close":
                    via = op[3] % 3
                    if via == 0 and info.s is not None:
                        c = self.strategies[info.s].close_trade(t, **kw)
                    elif via == 1:
                        c = self.epics[info.e].close_trade(t, **kw)
                    else:
                        c = t.close_from_epic(**kw)
                    tick = self.ticks[info.e]
                    ev.update(close=c, price=info.side(tick), us=tick[0], market=True)
                elif kind == "tickclose":
                    # at a tick of its own, which the epic does not receive
                    us = self.now + op[3] * tzm.SEC
                    bid, ask = self.price(op[3] - 3, 2)
                    c = t.close_from_tick(sut.tick(10**6, us, bid, ask), **kw)
                    ev.update(close=c, price=info.side((us, bid, ask)), us=us, market=True)
                else:
                    price = self.price(op[3], 0)[0]
                    us = self.now + 1
                    c = t.close(close_value=price, datetime=sut.when(us), **kw)
                    ev.update(close=c, price=price, us=us, market=False)
        elif kind == "fill":
            # the provider tells the price really obtained
            if not self.trades:
                return None
            info = self.trades[op[1] % len(self.trades)]
            price = self.price(op[3], 0)[0]
            closes = info.obj.closes
            if op[2] and closes:
                closes[op[2] % len(closes)].close_value = price
            else:
                info.obj.open_value = price
            ev.update(e=info.e, trade=info, price=price, opening=not (op[2] and closes))
        elif kind == "closeall":
            if not self.strategies:
                return None
            s = op[1] % len(self.strategies)
            q = op[2] * self.case.get("lot", 1) or None if len(op) > 2 else None
            self.strategies[s].close_opened_trades(**({} if q is None else {"quantity": q}))
            ev.update(s=s, q=q)
        else:
            raise ValueError(kind)
        return ev

    def end(self):
        join_threads(*{id(self.provider(e)): self.provider(e)
                       for e in range(len(self.epics))}.values())


# ------------------------------------------------------------------------ generation
KINDS = ("tick", "open", "close", "tick", "tick", "open", "explicit", "close", "update", "tick",
         "close", "tickclose", "closeall", "open", "opentick")


@st.composite
def programs(draw, kinds=KINDS,
             net=None, max_ops=36, epics=(1, 1, 2), strats=(0, 1, 2, 3), max_q=6,
             modes=None, twins=True):
    n = draw(gen.pick(list(epics)))
    zones = [draw(gen.zones()) for _ in range(n)]
    shared = draw(gen.pick(["default", "shared", "shared", "own"]))
    if net is True or (net is None and draw(gen.ints(0, 2)) > 0):
        nets = True
    else:
        nets = False
        if shared == "default":
            shared = "own"
    if shared == "default":
        providers, epic_prov = [], [None] * n
    elif shared == "shared":
        providers, epic_prov = [nets], [0] * n
    else:
        providers, epic_prov = [nets] * n, list(range(n))
    mode = draw(gen.price_mode(modes) if modes else gen.price_mode())
    start = draw(gen.anchors(zones[0]))
    lo = max(tzm.bounds(z)[0] for z in zones)
    hi = min(tzm.bounds(z)[1] for z in zones) - 100 * gen.DAY
    start = min(max(start, lo), hi)
    ops = draw(st.lists(op(list(kinds), max_q), min_size=min(max_ops, draw(gen.pick([2, 10, 20, 28]))),
                        max_size=max_ops))
    return {"zones": zones, "providers": providers, "epic_prov": epic_prov,
            "strats": draw(gen.pick(list(strats))), "mode": mode, "start": start,
            "ints": draw(st.booleans()), "ops": ops,
            "sized": draw(gen.pick([False, False, False, True])),
            "twins": twins and draw(gen.pick([False, False, False, True])),
            "lot": draw(gen.pick([1, 1, 1, 100, 12345]))}


@st.composite
def op(draw, kinds, max_q):
    k = draw(gen.pick(kinds))
    i = gen.ints
    if k == "tick":
        return [k, draw(i(0, 1)), draw(gen.pick([60, 0, 1, 3600, 40000])), draw(i(-6, 6)),
                draw(i(0, 5))]
    if k == "open":
        return [k, draw(i(0, 1)), draw(i(-1, 2)), draw(i(0, 1)), draw(i(1, max_q))]
    if k == "opentick":
        return [k, draw(i(0, 1)), draw(i(-1, 2)), draw(i(0, 1)), draw(i(1, max_q)),
                draw(gen.pick([0, 60, -60, -86400])), draw(i(-6, 6)), draw(i(0, 5))]
    if k == "update":
        return [k, draw(i(0, 30)), draw(i(-9, 9)), draw(gen.pick([0, 0, 1, 2]))]
    if k == "fill":
        return [k, draw(i(0, 30)), draw(i(0, 3)), draw(i(-9, 9))]
    if k == "close":
        return [k, draw(i(0, 30)), draw(gen.pick([1, 2, 0, 1, 3, max_q, 1, 50])),
                draw(i(0, 2))]
    if k == "tickclose":
        return [k, draw(i(0, 30)), draw(gen.pick([1, 0, 2, 50])), draw(i(0, 6))]
    if k == "explicit":
        return [k, draw(i(0, 30)), draw(gen.pick([1, 0, 2, 1, 3, 50])),
                draw(i(-9, 9))]
    return [k, draw(i(0, 2)), draw(gen.pick([0, 0, 1, 2, 50]))]


def same(actual, expected_cents):
    """A result equals a number of cents, up to float arithmetic."""
    return abs(actual * 100 - expected_cents) <= 1e-5 + 1e-9 * abs(expected_cents)


def expand(ops):
    """Operations, each ["many", n, [operations]] replaced by n times its operations."""
    out = []
    for o in ops:
        if o[0] == "many":
            for _ in range(o[1]):
                out.extend(o[2])
        else:
            out.append(o)
    return out


@st.composite
def crowded(draw, base, sizes=(25, 12, 60, 130)):
    """A case of `base` with a block of many openings (each possibly closed again)."""
    case = draw(base)
    i = gen.ints
    e, s = draw(i(0, 1)), draw(i(-1, 13))
    block = [["open", e, s, draw(i(0, 1)), draw(i(1, 2))]]
    how = draw(gen.pick(["kept", "closed", "half", "chipped"]))
    if how == "closed":
        block.append(["close", -1, 0, draw(i(0, 1))])
    elif how == "half":
        block += [["open", e, draw(i(-1, 2)), block[0][3], 1], ["close", -1, 0, 1]]
    at = draw(i(0, len(case["ops"])))
    if how == "chipped":
        # one large trade closed in many parts
        case["ops"].insert(at, ["open", e, s, block[0][3], 400])
        at += 1
        block = [["close", -1, draw(i(1, 2)), draw(i(0, 2))]]
        if draw(st.booleans()):
            block.append(["tick", e, 60, draw(i(-6, 6)), draw(i(0, 5))])
    tail = [["tick", e, 60, draw(i(-6, 6)), draw(i(0, 5))],
            ["close", draw(i(0, 8)), draw(i(0, 2)), draw(i(0, 2))],
            ["open", e, s, draw(i(0, 1)), draw(i(1, 6))],
            ["open", e, s, 1 - block[0][3], draw(gen.pick([7, 30, 70, 250]))]]
    case["ops"] = (case["ops"][:at] + [["many", draw(gen.pick(list(sizes))), block]]
                   + draw(st.permutations(tail)) + case["ops"][at:at + 8])
    return case

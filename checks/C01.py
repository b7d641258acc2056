"""C01: a tick is well formed and its derived values follow from bid and ask."""
import datetime as D
import zoneinfo

import arrow
import dateutil.tz
import pytz
from hypothesis import strategies as st

from estrade import Tick
from estrade.exceptions import TickException, TimeException
from vlib import gen, observe as ob, tzmodel as tzm
from vlib.harness import Scenario
from vlib.nums import F, near

PROPERTY = "C01"
RULE = (
    "A case is a list of tick constructions: prices (ints, floats with 0 to 5 decimals, any "
    "sign, equal, inverted, or of a non numeric type), a time (arrow, python datetime with "
    "zoneinfo, dateutil, pytz or fixed offset, or a naive/invalid one) and metadata. "
    "Non-trivial: at least one tick accepted and either a refusal or a non-integer price."
)
ASSUMPTIONS = ["NaN, infinities, booleans and Decimal prices are outside the domain"]

BAD_PRICES = [None, "12.5", [1], {"a": 1}, "", "abc"]
BAD_TIMES = ["naive", "none", "string", "int", "date", "naive_utcnow"]


def build_time(kind, us, zone):
    if kind == "arrow":
        return arrow.get(tzm.utc(us)).to(zone)
    if kind == "arrow_utc":
        return arrow.get(tzm.utc(us))
    if kind == "zoneinfo":
        return tzm.utc(us).astimezone(zoneinfo.ZoneInfo(zone))
    if kind == "dateutil":
        return tzm.utc(us).astimezone(dateutil.tz.gettz(zone))
    if kind == "pytz":
        return tzm.utc(us).astimezone(pytz.timezone(zone))
    if kind == "offset":
        m = tzm.offset_us(us, zone) // 60_000_000
        return tzm.utc(us).astimezone(D.timezone(D.timedelta(minutes=m)))
    if kind == "utc":
        return tzm.utc(us)
    if kind == "naive":
        return tzm.local(us, zone)
    if kind == "naive_utcnow":
        return tzm.utc(us).replace(tzinfo=None)
    if kind == "none":
        return None
    if kind == "string":
        return tzm.utc(us).isoformat()
    if kind == "int":
        return us
    if kind == "date":
        return tzm.local(us, zone).date()
    raise ValueError(kind)


def is_number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def run(case, ctx):
    made = []
    refused = accepted = decimal = 0
    for spec in case["ticks"]:
        kind, us, zone, bid, ask, meta = (
            spec["time"], spec["us"], spec["zone"], spec["bid"], spec["ask"], spec["meta"])
        when = build_time(kind, us, zone)
        kwargs = {"datetime": when, "bid": bid, "ask": ask}
        if meta is not None:
            kwargs["meta"] = dict(meta)
        bad_time = kind in BAD_TIMES
        bad_price = not (is_number(bid) and is_number(ask)) or bid > ask
        try:
            tick = Tick(**kwargs)
            error = None
        except (TickException, TimeException) as e:
            error = e
        if bad_time or bad_price:
            refused += 1
            ctx.check(error is not None, "accepted %s", spec)
            allowed = ((TimeException,) if bad_time else ()) + (
                (TickException,) if bad_price else ())
            ctx.check(isinstance(error, allowed), "refused with %r: %s", error, spec)
            continue
        ctx.check(error is None, "refused with %r: %s", error, spec)
        accepted += 1
        decimal += bid != int(bid)
        made.append((tick, us, zone, kind, bid, ask, meta))
    # all of them are looked at once they all exist (shared state would show)
    for n, (tick, us, zone, kind, bid, ask, meta) in enumerate(made):
        ctx.check(ob.num(tick.bid) == bid and ob.num(tick.ask) == ask,
                  "prices %r %r instead of %r %r", tick.bid, tick.ask, bid, ask)
        ctx.check(isinstance(tick.bid, float) and isinstance(tick.ask, float),
                  "prices are not floats: %r %r", tick.bid, tick.ask)
        ctx.eq(ob.us(tick.datetime), us, "instant")
        local = tzm.utc(us).replace(tzinfo=None) if kind in ("utc", "arrow_utc") else (
            tzm.local(us, zone))
        ctx.eq(ob.wall(tick.datetime), local, "local time")
        ctx.eq(ob.us(tick.datetime_utc), us, "UTC instant")
        ctx.eq(ob.wall(tick.datetime_utc), tzm.utc(us).replace(tzinfo=None), "UTC time")
        ctx.check(isinstance(tick.datetime, arrow.Arrow), "time is %r", tick.datetime)
        spread = ob.num(tick.spread)
        value = ob.num(tick.value)
        exact_spread = F(ask) - F(bid)
        ctx.check(near(spread, exact_spread), "spread %r of %r %r", spread, bid, ask)
        cents = all(round(x * 100) == x * 100 or abs(x * 100 - round(x * 100)) < 1e-7
                    for x in (bid, ask))
        tol = 0.005 if cents else 0.0075
        mid = (F(ask) + F(bid)) / 2
        ctx.check(near(value, mid, tol), "value %r of %r %r", value, bid, ask)
        d = tick.asdict()
        ctx.check(d["bid"] == bid and d["ask"] == ask and d["spread"] == spread
                  and d["value"] == value and ob.us(d["datetime"]) == us,
                  "dictionary %r", d)
        text = local.strftime("%Y-%m-%d %H:%M:%S")
        d = tick.asdict(datetime_to_str=True)
        ctx.check(d["datetime"] == text and d["bid"] == bid and d["ask"] == ask
                  and d["spread"] == spread and d["value"] == value, "dictionary %r", d)
        ctx.eq(str(tick), f"{text} : {value} (bid: {float(bid)}, ask: {float(ask)}, "
                          f"spread: {spread})", "text")
        expected = meta if meta is not None else {}
        ctx.check(tick.meta == expected, "metadata %r instead of %r", tick.meta, expected)
        tick.meta[f"mark{n}"] = n  # must not show on another tick
    for n, (tick, us, zone, kind, bid, ask, meta) in enumerate(made):
        expected = dict(meta or {}, **{f"mark{n}": n})
        ctx.check(tick.meta == expected, "metadata %r instead of %r", tick.meta, expected)
        ctx.check(tick.bid == bid and tick.ask == ask and ob.us(tick.datetime) == us,
                  "tick changed by another one")
        # prices corrected later
        for j, (b, a) in enumerate(case["ticks"][n].get("later", [])):
            a = round(b + a, 5)
            if a >= tick.bid:
                tick.ask, tick.bid = a, b
            else:
                tick.bid, tick.ask = b, a
            ctx.check((tick.bid, tick.ask) == (b, a), "corrected prices %r %r instead of %r %r",
                      tick.bid, tick.ask, b, a)
            spread, value = ob.num(tick.spread), ob.num(tick.value)
            ctx.check(near(spread, F(a) - F(b)), "spread %r of corrected %r %r", spread, b, a)
            ctx.check(near(value, (F(a) + F(b)) / 2, 0.0075), "value %r of corrected %r %r",
                      value, b, a)
            d = tick.asdict()
            ctx.check((d["bid"], d["ask"], d["spread"], d["value"]) == (b, a, spread, value),
                      "dictionary %r of corrected %r %r", d, b, a)
            ctx.check(str(tick).endswith(f" : {value} (bid: {float(b)}, ask: {float(a)}, "
                                         f"spread: {spread})"), "text of corrected %s", tick)
    if accepted and (refused or decimal):
        ctx.nontrivial = True
    ctx.label("accepted", accepted)
    ctx.label("refused", refused)


def prices():
    cents = gen.ints(-10**7, 10**7).map(lambda c: c / 100)
    return st.one_of(
        gen.ints(-1000, 1000),
        cents,
        gen.ints(-200, 200).map(lambda c: c / 100),
        gen.ints(-10**8, 10**8).map(lambda c: round(c / 100000, 5)),
        gen.ints(-10**11, 10**11).map(lambda c: c / 100),
        st.floats(-1e6, 1e6, allow_nan=False).map(lambda x: round(x, 4)),
    )


@st.composite
def tick_specs(draw):
    zone = draw(gen.zones())
    lo, hi = tzm.bounds(zone)
    bid = draw(prices())
    how = draw(gen.pick(["spread", "spread", "equal", "other", "inverted"]))
    if how == "spread":
        ask = round(bid + draw(gen.ints(0, 400)) / draw(gen.pick([100, 1, 10000])), 5)
    elif how == "equal":
        ask = bid
    elif how == "inverted":
        ask = bid
        bid = round(bid + draw(gen.ints(1, 400)) / draw(gen.pick([100, 10000, 100000])), 5)
    else:
        ask = draw(prices())
    if draw(gen.ints(0, 11)) == 11:
        side = draw(gen.ints(0, 2))
        if side != 1:
            bid = draw(gen.pick(BAD_PRICES))
        if side != 0:
            ask = draw(gen.pick(BAD_PRICES))
    kind = draw(gen.pick(["arrow", "zoneinfo", "arrow_utc", "dateutil", "pytz", "offset",
                          "utc"]))
    if draw(gen.ints(0, 11)) == 11:
        kind = draw(gen.pick(BAD_TIMES))
    ts = tzm.transitions(zone)
    if ts and draw(st.booleans()):
        us = draw(gen.pick(ts)) + draw(gen.ints(-9000, 9000)) * tzm.SEC
    else:
        us = draw(gen.ints(lo // tzm.SEC, hi // tzm.SEC)) * tzm.SEC + draw(
            gen.pick([0, 1, 999999]))
    meta = draw(gen.pick([None, None, {}, {"a": 1}, {"k": [1, 2], "z": "x"}]))
    later = []
    if draw(gen.ints(0, 3)) == 3:
        later = draw(st.lists(st.tuples(prices(), gen.ints(0, 400).map(lambda c: c / 100)),
                              min_size=1, max_size=2))
    return {"time": kind, "us": us, "zone": zone, "bid": bid, "ask": ask, "meta": meta,
            "later": later}


@st.composite
def programs(draw):
    return {"ticks": draw(st.lists(tick_specs(), min_size=1, max_size=4))}


SCENARIOS = [Scenario("ticks", run, programs, quick=12000, thorough=1000000)]

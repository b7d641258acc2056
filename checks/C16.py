"""C16: trade results are the sum of price moves times quantities at the right side."""
from hypothesis import strategies as st

from vlib import gen, observe as ob
from vlib.harness import Scenario
from vlib.trading import KINDS, Sim, cents, crowded, expand, programs, same, units

PROPERTY = "C16"
RULE = (
    "A case is a program of ticks, openings, partial and full closes (at market, at an "
    "explicit price, from a tick), explicit price updates and corrections of the price a trade "
    "or close was made at over one or two epics, up to "
    "three strategies and none, netting or plain providers, at any price level. After each "
    "step the figures of every trade are recomputed in whole cents from its opening value, "
    "its recorded closes and the price it was last updated with. Non-trivial: a trade with a "
    "partial close, valued at two later prices. 'crowd': the same programs, some of whose "
    "operations are repeated up to hundreds of times."
)
ASSUMPTIONS = ["a rounding tie (prices with three decimals or more) may go either way: such "
               "trades are left out and counted"]


def run(case, ctx):
    sim = Sim(case)
    for op in expand(case["ops"]):
        pre = {t.k: (read_closes(t.obj), t.obj.opened_quantities) for t in sim.trades}
        ev = sim.apply(op)
        if ev is None:
            continue
        step(sim, ev, pre, ctx)
    sim.end()
    ctx.nontrivial = any(t.valued >= 2 for t in sim.trades)
    for t in sim.trades:
        if t.fuzzy:
            ctx.exclude("rounding tie")


def read_closes(t):
    return [(c.quantity, ob.num(c.close_value)) for c in t.closes]


def result(t, closes, open_q, price, open_value):
    """(closed, per open unit, fuzzy) in cents."""
    closed = 0
    fuzzy = False
    for q, p in closes:
        c, tie = cents(t.move(p, open_value))
        fuzzy |= tie and q != 0
        closed += c * q
    c, tie = cents(t.move(price, open_value))
    fuzzy |= tie and open_q != 0
    return closed, (c if open_q else 0), fuzzy


def step(sim, ev, pre, ctx):
    kind = ev["kind"]
    for t in sim.trades:
        o = t.obj
        what = f"{t.name} after {kind}"
        if t.k not in pre:
            # just opened
            t.fuzzy, t.valued = False, 0
            us, bid, ask = t.tick
            t.open = ask if t.buy else bid
            ctx.check(o.open_value == t.open, "%s: opened at %s, tick is %s/%s", what,
                      o.open_value, bid, ask)
            ctx.check(ob.us(o.datetime) == us, "%s: opening time %s", what, o.datetime)
            t.price = t.side(t.tick)
            sample = (read_closes(o), o.opened_quantities, t.price)
            t.hi = t.lo = None
            samples = [sample]
        else:
            closes, open_q = pre[t.k]
            samples = []
            mine = ev.get("trade") is t
            if mine and kind == "fill" and ev["opening"]:
                t.open = ev["price"]
            if open_q:
                if kind == "tick" and ev["e"] == t.e and listed(sim, t):
                    t.price = t.side(sim.ticks[t.e])
                elif mine and kind == "update":
                    t.price = ev["price"]
                elif mine and kind in ("close", "tickclose"):
                    t.price = ev["price"]
                elif kind in ("open", "closeall") and read_closes(o) != closes:
                    t.price = t.side(sim.ticks[t.e])
                else:
                    samples = None
                if samples is not None:
                    samples = [(closes, open_q, t.price)]
                    if closes and kind == "tick":
                        t.valued += 1
                else:
                    samples = []
        for closes, open_q, price in samples:
            closed, per, fz = result(t, closes, open_q, price, t.open)
            t.fuzzy |= fz
            r = closed + per * open_q
            t.hi = r if t.hi is None else max(t.hi, r)
            t.lo = r if t.lo is None else min(t.lo, r)
        closes = read_closes(o)
        open_q = o.opened_quantities
        if ev.get("trade") is t and "close" in ev and t.k in pre:
            new = closes[len(pre[t.k][0]):]
            ctx.check(all(p == ev["price"] for q, p in new if q), "%s: closed at %s, expected %s",
                      what, new, ev["price"])
        if open_q:
            ctx.check(ob.num(o.current_close_value) == t.price, "%s: valued at %s, expected "
                      "%s", what, o.current_close_value, t.price)
        closed, per, fz = result(t, closes, open_q, t.price, t.open)
        t.fuzzy |= fz
        if t.fuzzy:
            continue
        got = {k: ob.num(getattr(o, k), k) for k in (
            "result", "opened_result", "opened_result_avg", "closed_result",
            "closed_result_avg", "result_avg", "max_result", "min_result")}
        total = closed + per * open_q
        exp = {"result": total, "opened_result": per * open_q, "opened_result_avg": per,
               "closed_result": closed, "max_result": t.hi, "min_result": t.lo}
        for k, v in exp.items():
            ctx.check(same(got[k], v), "%s: %s is %s, expected %s (opened at %s, closes %s, "
                      "%s left at %s)", what, k, got[k], v / 100, t.open, closes, open_q,
                      t.price)
        cq = sum(q for q, _ in closes)
        for k, v, q in (("closed_result_avg", closed, cq),
                        ("result_avg", total, cq + open_q)):
            e = v / 100 / q if q else 0
            ctx.check(abs(got[k] - e) <= 0.005 + 1e-6, "%s: %s is %s, expected %s", what, k,
                      got[k], e)
        for c in o.closes:
            m, _ = cents(t.move(c.close_value, t.open))
            ctx.check(c.quantity == 0 or same(c.result_avg, m), "%s: move of a close %s, expected %s", what,
                      c.result_avg, m / 100)
            ctx.check(same(c.result, m * c.quantity), "%s: result of a close %s, expected %s",
                      what, c.result, m * c.quantity / 100)


def listed(sim, t):
    """The trade is registered: a trade wholly used by netting is not."""
    return any(x is t.obj for x in sim.provider(t.e).trades)


SCENARIOS = [
    Scenario("results", run, lambda: programs(KINDS + ("fill",)), quick=16000, thorough=900000),
    Scenario("crowd", run, lambda: crowded(programs(max_ops=10)), quick=160, thorough=8000),
]

"""C17: closing never loses, invents or exceeds a trade's quantity."""
from vlib import gen, observe as ob, world
from vlib.harness import Scenario
from vlib.trading import Sim, crowded, expand, programs

PROPERTY = "C17"
RULE = (
    "A case is a program of openings and closes (through the strategy, the epic, the trade "
    "itself at market, from a tick, or at an explicit price; partial, full, excessive and "
    "repeated), with ticks between them, over one or two epics, several strategies, netting "
    "or plain providers. After each step quantities add up on every trade, the close which "
    "was made is recorded once with its price and time, and no other trade changed. "
    "'crowd': the same programs, some of whose operations are repeated up to hundreds of "
    "times. Non-trivial: a trade closed in several parts, and an excessive or repeated close."
)
ASSUMPTIONS = ["a close on a closed trade may be recorded as a close of nothing or not at all",
               "quantities asked for are positive"]


def snap(t):
    return {"open_q": t.open_quantity, "left": t.opened_quantities,
            "closed_q": t.closed_quantities, "closed": bool(t.closed),
            "value": ob.num(t.open_value),
            "closes": [(c.quantity, ob.num(c.close_value), ob.us(c.datetime))
                       for c in t.closes]}


def run(case, ctx):
    sim = Sim(case)
    odd = parts = False
    for op in expand(case["ops"]):
        pre = {t.k: snap(t.obj) for t in sim.trades}
        objs = {t.k: list(t.obj.closes) for t in sim.trades}
        ev = sim.apply(op)
        if ev is None:
            continue
        kind = ev["kind"]
        for t in sim.trades:
            o = t.obj
            what = f"{t.name} after {op}"
            if t.k not in pre:
                # what is left to open after netting; everything without netting
                t.total = o.open_quantity
                if not sim.nets[t.e]:
                    ctx.check(t.total == t.q, "%s: opened with %s", what, t.total)
                ctx.check(not o.closes, "%s: closes on a new trade", what)
            s = snap(o)
            ctx.check(s["open_q"] == t.total, "%s: opening quantity went from %s to %s", what,
                      t.total, s["open_q"])
            real = sum(q for q, _, _ in s["closes"])
            ctx.check(s["closed_q"] == real, "%s: %s closed, closes %s", what, s["closed_q"],
                      s["closes"])
            ctx.check(s["left"] + s["closed_q"] == t.total and s["left"] >= 0
                      and s["closed_q"] >= 0, "%s: %s left and %s closed of %s", what,
                      s["left"], s["closed_q"], t.total)
            ctx.check(all(q >= 0 for q, _, _ in s["closes"]), "%s: closes %s", what,
                      s["closes"])
            ctx.check(s["closed"] == (s["left"] == 0), "%s: closed is %s with %s left", what,
                      s["closed"], s["left"])
            if t.k in pre:
                was = pre[t.k]
                n = len(was["closes"])
                ctx.check(s["closes"][:n] == was["closes"]
                          and all(a is b for a, b in zip(o.closes, objs[t.k])),
                          "%s: earlier closes changed", what)
                if ev.get("trade") is t and "close" in ev:
                    check_close(ctx, t, ev, was, s, what)
                    if ev["q"] is not None and ev["q"] > was["left"]:
                        odd = True
                elif kind == "closeall" and t.s == ev["s"]:
                    new = s["closes"][n:]
                    if not registered(sim, t) or not was["left"]:
                        ctx.check(not any(q for q, _, _ in new), "%s: closes %s", what, new)
                        continue
                    tick = sim.ticks[t.e]
                    want = was["left"] if ev["q"] is None else min(ev["q"], was["left"])
                    ctx.check(new == [(want, t.side(tick), tick[0])], "%s: closing all "
                              "recorded %s, expected %s at %s", what, new, want, tick)
                elif kind == "open" and sim.nets[t.e]:
                    taken = sum(q for q, _, _ in s["closes"][n:])
                    ctx.check(0 <= taken <= was["left"], "%s: netting took %s of %s", what,
                              taken, was["left"])
                else:
                    ctx.check(s == was, "%s: another trade's operation changed it from %s to "
                              "%s", what, was, s)
            if len([1 for q, _, _ in s["closes"] if q]) >= 2:
                parts = True
    sim.end()
    ctx.nontrivial = odd and parts


def registered(sim, t):
    return any(x is t.obj for x in sim.provider(t.e).trades)


def check_close(ctx, t, ev, was, s, what):
    want = was["left"] if ev["q"] is None else min(ev["q"], was["left"])
    got = s["closed_q"] - was["closed_q"]
    ctx.check(got == want, "%s: %s asked, %s closed of the %s left", what, ev["q"], got,
              was["left"])
    new = s["closes"][len(was["closes"]):]
    c = ev["close"]
    if want == 0:
        ctx.check(len(new) <= 1 and all(q == 0 for q, _, _ in new),
                  "%s: closes on a closed trade: %s", what, new)
        ctx.label("close on a closed trade")
        return
    ctx.check(len(new) == 1 and t.obj.closes[-1] is c, "%s: recorded as %s", what, new)
    ctx.check(c.trade is t.obj, "%s: the close is for another trade", what)
    ctx.check(new[0] == (want, ev["price"], ev["us"]),
              "%s: recorded close (quantity, price, time) is %s, expected %s", what, new[0],
              (want, ev["price"], ev["us"]))


SCENARIOS = [
    Scenario("quantities", run, lambda: programs(max_q=8), quick=16000, thorough=900000),
    Scenario("crowd", run, lambda: crowded(programs(max_ops=10)), quick=160, thorough=8000),
]
